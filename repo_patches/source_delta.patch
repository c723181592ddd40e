From 2c00c79e95ceb46d2d70e0f63381f733f3beff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 01/22] fix: only consider the endpoint of a node once, and
 only when the whole path led to it

A variable sequence that had consumed the last segment left its parent
node as a candidate, so the parent's handler could answer for the child.
---
 src/handler/tree_router.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 6855d5d..53fa20f 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -168,6 +168,12 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
         while let Some((current, branch, snapshot)) = stack.pop() {
             environment.route_state.go_to(snapshot);
             if environment.route_state.is_empty() {
+                //The path ends here, so the only thing left to consider is the
+                //endpoint of this node. It should only be considered once.
+                if branch != Static {
+                    continue;
+                }
+
                 if !self.find_hyperlinks {
                     let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
                     if let Err(returned_environment) = current.item.handle_request(new_environment) {
-- 
2.43.0


From f77b82072fa835871f2c063daacb948993a201f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 02/22] fix: don't let an endpoint that declined a request
 decide the status of the next

---
 src/handler/tree_router.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 53fa20f..e6af000 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -164,6 +164,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
 
         let mut hyperlinks = vec![];
         let mut matches = vec![];
+        let initial_status = environment.response.status();
 
         while let Some((current, branch, snapshot)) = stack.pop() {
             environment.route_state.go_to(snapshot);
@@ -279,6 +280,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
 
             for (handler, snapshot) in matches {
                 new_environment.route_state = snapshot;
+                new_environment.response.set_status(initial_status);
                 if let Err(returned_environment) = handler.handle_request(new_environment) {
                     new_environment = returned_environment;
                 } else {
-- 
2.43.0


From da67f6d5e64170846e6c274bf88146dc7aad30ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 03/22] fix: keep searching for matching routes when an
 endpoint declines, without hyperlinks too

---
 src/handler/tree_router.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index e6af000..cb63e31 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -164,6 +164,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
 
         let mut hyperlinks = vec![];
         let mut matches = vec![];
+        let mut found_match = false;
         let initial_status = environment.response.status();
 
         while let Some((current, branch, snapshot)) = stack.pop() {
@@ -176,12 +177,15 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
                 }
 
                 if !self.find_hyperlinks {
+                    found_match = true;
+                    environment.response.set_status(initial_status);
                     let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
-                    if let Err(returned_environment) = current.item.handle_request(new_environment) {
-                        environment = returned_environment.replace_hyperlinks(old_hyperlinks).0;
-                        return Err(environment);
-                    } else {
-                        return Ok(());
+                    match current.item.handle_request(new_environment) {
+                        Ok(()) => return Ok(()),
+                        Err(returned_environment) => {
+                            environment = returned_environment.replace_hyperlinks(old_hyperlinks).0;
+                            continue;
+                        }
                     }
                 }
 
@@ -271,7 +275,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             }
         }
 
-        if matches.is_empty() {
+        if matches.is_empty() && !found_match {
             environment.response.set_status(StatusCode::NotFound);
         } else if self.find_hyperlinks {
             hyperlinks.sort();
-- 
2.43.0


From 9b6e65d8adef1ef3fe766b86585b7ec3781efc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:57 +0000
Subject: [PATCH 04/22] fix: accept empty segments in the middle of registered
 paths

path() and on_path() indexed into the segment and panicked on paths like
'a//b', although such paths are matched as written.
---
 src/handler/tree_router.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index cb63e31..757be50 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -463,7 +463,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if segment.starts_with(b":") || segment.starts_with(b"*") {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
@@ -512,7 +512,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if segment.starts_with(b":") || segment.starts_with(b"*") {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
-- 
2.43.0


From 3627b4ad21c56a182ce988da71635e141befd904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 05/22] fix: don't drop the handler given to on_route when the
 node already exists

on_route() only used its handler for nodes that it created, so adding a
handler to a known or empty label was silently ignored, unlike on_path().
---
 src/handler/tree_router.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 757be50..63a35eb 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -595,6 +595,10 @@ impl<'a, T> Builder<'a, T> {
         let label = if let Some(label) = label_iter.next() {
             label
         } else {
+            let mut new_context = context.clone().into_owned();
+            new_context.insert(VariableNames(variables.into_owned()));
+            self.node.item = T::from_handler(new_context, handler);
+
             return Builder {
                 node: self.node,
                 variables: self.variables.clone(),
@@ -610,16 +614,21 @@ impl<'a, T> Builder<'a, T> {
             variables.to_mut().push(label[1..].to_owned().into());
         }
 
-        let node = self.node.find_or_insert_router(label, || {
-            let mut new_context = context.clone().into_owned();
-            new_context.insert(VariableNames(variables.clone().into_owned()));
-            T::from_handler(new_context, handler)
-        });
+        let mut new_context = context.clone().into_owned();
+        new_context.insert(VariableNames(variables.clone().into_owned()));
+        let mut item = Some(T::from_handler(new_context, handler));
+
+        let node = self.node.find_or_insert_router(label, || item.take().unwrap());
+
+        //the node may already exist
+        if let Some(item) = item {
+            node.item = item;
+        }
 
         Builder {
             node: node,
             variables: variables,
-            context: self.context.clone()
+            context: context
         }
     }
 
-- 
2.43.0


From e3744430946477d8845b868c52f8b08c09482521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 06/22] fix: split the fragment from request paths before the
 query

'/a#b?c' has the fragment 'b?c' and no query, but it was parsed as the path
'/a#b' with the query 'c'.
---
 src/server/instance.rs | 43 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 28 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 327f455..fa50832 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -238,37 +238,24 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
 }
 
 fn parse_path(path: &str) -> ParsedUri {
-    match path.find('?') {
-        Some(index) => {
-            let (query, fragment) = parse_fragment(&path[index+1..]);
+    //The fragment comes last and may contain anything, including '?'
+    let (path, fragment) = parse_fragment(path);
 
-            let mut path: Vec<_> = percent_decode(path[..index].as_bytes()).collect();
-            if path.is_empty() {
-                path.push(b'/');
-            }
-
-            ParsedUri {
-                host: None,
-                uri_path: UriPath::Path(path.into()),
-                query: utils::parse_parameters(query.as_bytes()),
-                fragment: fragment.map(|f| percent_decode(f.as_bytes()).collect::<Vec<_>>().into()),
-            }
-        },
-        None => {
-            let (path, fragment) = parse_fragment(&path);
+    let (path, query) = match path.find('?') {
+        Some(index) => (&path[..index], utils::parse_parameters(path[index+1..].as_bytes())),
+        None => (path, Parameters::new())
+    };
 
-            let mut path: Vec<_> = percent_decode(path.as_bytes()).collect();
-            if path.is_empty() {
-                path.push(b'/');
-            }
+    let mut path: Vec<_> = percent_decode(path.as_bytes()).collect();
+    if path.is_empty() {
+        path.push(b'/');
+    }
 
-            ParsedUri {
-                host: None,
-                uri_path: UriPath::Path(path.into()),
-                query: Parameters::new(),
-                fragment: fragment.map(|f| percent_decode(f.as_bytes()).collect::<Vec<_>>().into())
-            }
-        }
+    ParsedUri {
+        host: None,
+        uri_path: UriPath::Path(path.into()),
+        query: query,
+        fragment: fragment.map(|f| percent_decode(f.as_bytes()).collect::<Vec<_>>().into()),
     }
 }
 
-- 
2.43.0


From b8c4c8dd9363c33cedd8d9123e69e6d1c5a791f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 07/22] fix: decode the query of absolute request targets like
 any other query

Url::query_pairs() replaces everything that isn't UTF-8, so the same query
had other values in 'GET http://host/?a=%FF' than in 'GET /?a=%FF'.
---
 src/server/instance.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index fa50832..1e6e078 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -270,9 +270,9 @@ fn parse_url(url: &Url) -> ParsedUri {
     let mut path = vec![];
     path.extend(percent_decode(url.path().as_bytes()));
 
-    let query = url.query_pairs()
-        .map(|(k, v)| (k.into_owned(), v.into_owned()))
-        .collect();
+    let query = url.query()
+        .map(|query| utils::parse_parameters(query.as_bytes()))
+        .unwrap_or_else(Parameters::new);
 
     let host = url.host_str().map(|host| (host.into(), url.port()));
 
-- 
2.43.0


From 22601729708515ef8d907532f81f7f05008ee909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:26 +0000
Subject: [PATCH 08/22] fix: don't reverse the order of strings and bytes
 compared with MaybeUtf8

'a < maybe_utf8' was implemented as 'maybe_utf8 < a'.
---
 src/context/maybe_utf8.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/context/maybe_utf8.rs b/src/context/maybe_utf8.rs
index 3b387b5..049de8b 100644
--- a/src/context/maybe_utf8.rs
+++ b/src/context/maybe_utf8.rs
@@ -313,7 +313,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for str where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -322,7 +322,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for &'a str where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -331,7 +331,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for String where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -340,7 +340,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for Cow<'a, str> where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self.as_ref())
+        other.partial_cmp(self.as_ref()).map(Ordering::reverse)
     }
 }
 
@@ -349,7 +349,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for [u8] where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -358,7 +358,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for &'a [u8] where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -367,7 +367,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for Vec<u8> where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
-- 
2.43.0


From a2a9b6f9f3a9b16cc37bae3423927d65b82a604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 09/22] fix: don't panic when a response filter silently drops
 a chunk

---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 4656a17..85a282c 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -939,7 +939,7 @@ impl<'a, 'b> Chunked<'a, 'b> {
             Some(Err(e)) => Err(Error::Io(e)),
             None => match filter_result {
                 Action::Abort(e) => Err(Error::Filter(e)),
-                Action::Next(None) => Ok(0),
+                Action::Next(None) | Action::SilentAbort => Ok(0),
                 _ => unreachable!()
             }
         }
-- 
2.43.0


From 2d1ae998e4ce9d5598a94bf9af11f1d9da48afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 10/22] fix: a silently dropped piece of content doesn't drop
 the pieces behind it

---
 src/response.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 85a282c..a2075fe 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -669,9 +669,8 @@ impl<'a, 'b> Response<'a, 'b> {
             for action in write_queue {
                 match action {
                     Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::Next(None) | Action::SilentAbort => {},
+                    Action::Abort(e) => return Err(Error::Filter(e))
                 }
             }
 
@@ -686,9 +685,8 @@ impl<'a, 'b> Response<'a, 'b> {
             for action in write_queue {
                 match action {
                     Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::Next(None) | Action::SilentAbort => {},
+                    Action::Abort(e) => return Err(Error::Filter(e))
                 }
             }
 
@@ -793,9 +791,8 @@ impl<'a, 'b> Response<'a, 'b> {
             for action in write_queue {
                 match action {
                     Action::Next(Some(content)) => try!(writer.write_all(content.as_bytes())),
-                    Action::Next(None) => {},
-                    Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::Next(None) | Action::SilentAbort => {},
+                    Action::Abort(e) => return Err(Error::Filter(e))
                 }
             }
 
-- 
2.43.0


From 800acfbe9e309e222d4e9c218accb402c22da84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:01 +0000
Subject: [PATCH 11/22] fix: report errors from the end of response filters and
 filter their output with the filters behind them

---
 src/response.rs | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index a2075fe..83dc087 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1197,23 +1197,29 @@ fn filter_content<'a, 'd: 'a, Content: Into<Data<'d>>>(filters: &'a [Box<Respons
 }
 
 fn filter_end<'a>(filters: &'a [Box<ResponseFilter>], global: &Global, filter_storage: &mut AnyMap) -> Result<Vec<Action<'a>>, Error> {
-    let otuputs: Vec<_> = filters.into_iter()
-        .rev()
-        .map(|filter| {
-            let filter_context = FilterContext {
-                storage: filter_storage,
-                global: global,
-            };
-
-            filter.end(filter_context)
-        })
-        .take_while(|a| if let Action::Next(_) = *a { true } else { false })
-        .map(Some)
-        .collect();
+    //The filters are ended in reverse order, to mirror the beginning of the body.
+    let mut outputs = Vec::with_capacity(filters.len());
+
+    for filter in filters.iter().rev() {
+        let filter_context = FilterContext {
+            storage: filter_storage,
+            global: global,
+        };
+
+        match filter.end(filter_context) {
+            Action::Next(content) => outputs.push(Some(Action::Next(content))),
+            Action::SilentAbort => break,
+            Action::Abort(e) => return Err(Error::Filter(e))
+        }
+    }
+
+    //Pair each output with the filter it came from.
+    outputs.resize(filters.len(), None);
+    outputs.reverse();
 
     let mut write_queue = vec![];
 
-    for (filter, action) in filters.into_iter().zip(otuputs.into_iter().chain(::std::iter::repeat(None))) {
+    for (filter, action) in filters.into_iter().zip(outputs) {
         let mut error = None;
 
         write_queue = write_queue.into_iter().filter_map(|action| match action {
@@ -1236,7 +1242,7 @@ fn filter_end<'a>(filters: &'a [Box<ResponseFilter>], global: &Global, filter_st
         }
 
         if let Some(action) = action {
-            write_queue.push(action);
+            write_queue.insert(0, action);
         }
     }
 
-- 
2.43.0


From 2b0db19067863f627ec7d00d216af5823be41a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:01 +0000
Subject: [PATCH 12/22] fix: Chunked::write returns how much of the input it
 consumed, not what the filters made of it

---
 src/response.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 83dc087..3746708 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -980,7 +980,8 @@ impl<'a, 'b> Chunked<'a, 'b> {
 
 impl<'a, 'b> Write for Chunked<'a, 'b> {
     fn write(&mut self, content: &[u8]) -> io::Result<usize> {
-        response_to_io_result(self.try_send(content))
+        //The filters may have changed the size, but all of the input was consumed.
+        response_to_io_result(self.try_send(content)).map(|_| content.len())
     }
 
     fn write_all(&mut self, content: &[u8]) -> io::Result<()> {
-- 
2.43.0


From 6445bd825857aa0a247bd43caabaa5a7e2378605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 13/22] fix: streamed mock responses accept what is written to
 them

---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 3746708..6cf7de3 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -465,7 +465,7 @@ impl<'a> Write for MaybeMock<hyper::server::response::Response<'a, hyper::net::S
         if let MaybeMock::Actual(ref mut response) = *self {
             response.write(buffer)
         } else {
-            Ok(0)
+            Ok(buffer.len())
         }
     }
 
-- 
2.43.0


From 96b074ae93b9dcdf7ebd9eacbbdd0c8fe3a89696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 14/22] fix: accept multipart boundaries that happen to be the
 name of a charset

---
 src/context/body.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 0fc8b7c..cd97188 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -26,17 +26,13 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     ///Internal and may change without warning.
     pub fn from_reader(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>, headers: &Headers) -> BodyReader<'a, 'b> {
         use header::ContentType;
-        use mime::{Mime, TopLevel, SubLevel, Attr, Value};
+        use mime::{Mime, TopLevel, SubLevel, Attr};
 
         let boundary = match headers.get() {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
-                    })
+                    .map(|&(_, ref val)| val.as_str().to_owned())
             },
             _ => None
         };
@@ -60,17 +56,13 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     #[cfg(feature = "multipart")]
     pub fn mock(headers: &'b Headers) -> BodyReader<'static, 'static> {
         use header::ContentType;
-        use mime::{Mime, TopLevel, SubLevel, Attr, Value};
+        use mime::{Mime, TopLevel, SubLevel, Attr};
 
         let boundary = match headers.get() {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
-                    })
+                    .map(|&(_, ref val)| val.as_str().to_owned())
             },
             _ => None
         };
-- 
2.43.0


From df3aa013213349ca44991a315743dd40d9954af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:55 +0000
Subject: [PATCH 15/22] fix: don't overflow when a large number of threads
 should be kept free

---
 src/server/instance.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 1e6e078..b4ca23d 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -146,7 +146,10 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
         ) = request.deconstruct();
 
         let force_close = if let Some(ref keep_alive) = self.keep_alive {
-            self.threads_in_use.load(Ordering::SeqCst) + keep_alive.free_threads > self.threads
+            //More threads than there are numbers is also too many.
+            self.threads_in_use.load(Ordering::SeqCst)
+                .checked_add(keep_alive.free_threads)
+                .map_or(true, |wanted| wanted > self.threads)
         } else {
             false
         };
-- 
2.43.0


From bfe0a141392e9b9473678184a39eea67453c34eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:55 +0000
Subject: [PATCH 16/22] fix: files with video extensions are videos, not images

---
 build/mime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/mime.rs b/build/mime.rs
index 0f9b1fb..e48cdb0 100644
--- a/build/mime.rs
+++ b/build/mime.rs
@@ -37,7 +37,7 @@ pub fn gen() {
             "text" => "MaybeKnown::Known(::mime::TopLevel::Text)".into(),
             "image" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
             "audio" => "MaybeKnown::Known(::mime::TopLevel::Audio)".into(),
-            "video" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
+            "video" => "MaybeKnown::Known(::mime::TopLevel::Video)".into(),
             "application" => "MaybeKnown::Known(::mime::TopLevel::Application)".into(),
             "multipart" => "MaybeKnown::Known(::mime::TopLevel::Multipart)".into(),
             "message" => "MaybeKnown::Known(::mime::TopLevel::Message)".into(),
-- 
2.43.0


From 5229d04b3a5f7c9c8fb4d7b3bbb722e87921ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 17/22] fix: apply builder contexts without variable names to
 the items of a TreeRouter

---
 src/handler/tree_router.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 63a35eb..bdff6b9 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -367,9 +367,10 @@ impl<T: ApplyContext> ApplyContext for TreeRouter<T> {
             self.item.apply_context(context.clone());
 
             context.insert(VariableNames(variables));
+        } else {
+            self.item.apply_context(context.clone());
         }
 
-
         for (_, mut node) in &mut self.static_routes {
             node.apply_context(context.clone());
         }
-- 
2.43.0


From 0ea482193ec5f665b07c638c7db16586a4a939cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:30 +0000
Subject: [PATCH 18/22] fix: links are equal exactly when they are ordered
 equally

---
 src/context/hypermedia.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/context/hypermedia.rs b/src/context/hypermedia.rs
index a9c1d22..3ac40d2 100644
--- a/src/context/hypermedia.rs
+++ b/src/context/hypermedia.rs
@@ -26,7 +26,8 @@ impl<'a> fmt::Debug for Link<'a> {
 
 impl<'a> cmp::PartialEq for Link<'a> {
     fn eq(&self, other: &Link<'a>) -> bool {
-        self.method == other.method && self.path == other.path
+        //Methods are compared by name, just like when ordering.
+        self.cmp(other) == cmp::Ordering::Equal
     }
 }
 
-- 
2.43.0


From 36bf71be51ae46d8673bc493536e743ee1fab38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:38 +0000
Subject: [PATCH 19/22] fix: directories can not be sent as files

---
 src/response.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 6cf7de3..244d6b3 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -344,7 +344,7 @@ impl<'d, 'a, 'b> SendResponse<'a, 'b> for &'d Path {
             .and_then(|ext| ::file::ext_to_mime(&ext.to_string_lossy()))
             .unwrap_or_else(|| Mime(TopLevel::Application, SubLevel::Ext("octet-stream".into()), vec![]));
 
-        let file = match File::open(self) {
+        let file = match open_file(self) {
             Ok(file) => file,
             Err(e) => return Err(FileError::Open(e, response))
         };
@@ -366,16 +366,33 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
     type Error = FileError<'a, 'b>;
 
     fn send_response(mut self, response: Response<'a, 'b>) -> Result<(), FileError<'a, 'b>> {
-        let metadata = match self.metadata() {
-            Ok(metadata) => metadata,
+        let size = match file_size(&self) {
+            Ok(size) => size,
             Err(e) => return Err(FileError::Open(e, response)),
         };
 
-        let mut writer = unsafe { response.into_raw(metadata.len()) };
+        let mut writer = unsafe { response.into_raw(size) };
         io::copy(&mut self, &mut writer).map_err(FileError::Send).map(|_| ())
     }
 }
 
+fn open_file(path: &Path) -> io::Result<File> {
+    let file = try!(File::open(path));
+    try!(file_size(&file));
+    Ok(file)
+}
+
+///Get the number of bytes to send. A directory can be opened on some platforms,
+///but it can't be read.
+fn file_size(file: &File) -> io::Result<u64> {
+    let metadata = try!(file.metadata());
+    if metadata.is_dir() {
+        Err(io::Error::new(io::ErrorKind::Other, "is a directory"))
+    } else {
+        Ok(metadata.len())
+    }
+}
+
 ///Helper trait for dealing with errors that may occur while sending a
 ///response. It provides a default method of handling the error.
 pub trait ResponseError {
@@ -757,7 +774,7 @@ impl<'a, 'b> Response<'a, 'b> {
             .and_then(|ext| to_mime(&ext.to_string_lossy()))
             .unwrap_or_else(|| Mime(TopLevel::Application, SubLevel::Ext("octet-stream".into()), vec![]));
 
-        let file = match File::open(path) {
+        let file = match open_file(path) {
             Ok(file) => file,
             Err(e) => return Err(FileError::Open(e, self))
         };
-- 
2.43.0


From 3ec10a9ed388de0d2a8bb5d54d795e2c07fa89a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 20/22] fix: a connection is closed after a file that could not
 be sent as a whole

---
 src/response.rs | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 244d6b3..7a5581a 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -43,6 +43,7 @@ use std::path::{Path, PathBuf};
 use std::fmt;
 
 use hyper;
+use hyper::http::h1::HttpWriter;
 
 use anymap::AnyMap;
 
@@ -372,7 +373,9 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
         };
 
         let mut writer = unsafe { response.into_raw(size) };
-        io::copy(&mut self, &mut writer).map_err(FileError::Send).map(|_| ())
+        let copied = io::copy(&mut self, &mut writer);
+        let ended = writer.end_or_close();
+        copied.and(ended).map_err(FileError::Send)
     }
 }
 
@@ -475,6 +478,30 @@ impl<'a> MaybeMock<hyper::server::response::Response<'a, hyper::net::Streaming>>
             Ok(())
         }
     }
+
+    ///End the response and close the connection if it's shorter than its
+    ///content length, since nothing more can be sent after it.
+    fn end_or_close(self) -> io::Result<()> {
+        if let MaybeMock::Actual(response) = self {
+            let (_, body, _, headers) = response.deconstruct();
+            let complete = match body {
+                HttpWriter::SizedWriter(_, remaining) => remaining == 0,
+                _ => true
+            };
+            if !complete {
+                headers.set(Connection(vec![ConnectionOption::Close]));
+            }
+            try!(body.end());
+
+            if complete {
+                Ok(())
+            } else {
+                Err(io::Error::new(io::ErrorKind::UnexpectedEof, "the response is too short"))
+            }
+        } else {
+            Ok(())
+        }
+    }
 }
 
 impl<'a> Write for MaybeMock<hyper::server::response::Response<'a, hyper::net::Streaming>> {
@@ -1096,6 +1123,14 @@ impl<'a> Raw<'a> {
         writer.end()
     }
 
+    fn end_or_close(mut self) -> io::Result<()> {
+        match self.writer.take() {
+            Some(Ok(writer)) => writer.end_or_close(),
+            None => Ok(()),
+            Some(Err(e)) => Err(e)
+        }
+    }
+
     fn borrow_writer(&mut self) -> io::Result<&mut MaybeMock<hyper::server::response::Response<'a, hyper::net::Streaming>>> {
         match self.writer {
             Some(Ok(ref mut writer)) => Ok(writer),
-- 
2.43.0


From 1644ee80a1bdf41ed6cf7a1ccbd0fa436ab3c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:00 +0000
Subject: [PATCH 21/22] fix: a tree that has no answer leaves the path as it
 was for the router behind it

---
 src/handler/routing.rs     | 8 ++++++++
 src/handler/tree_router.rs | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/handler/routing.rs b/src/handler/routing.rs
index f87b800..a14ac6a 100644
--- a/src/handler/routing.rs
+++ b/src/handler/routing.rs
@@ -181,6 +181,14 @@ impl<'a> RouteState<'a> {
         self.var_index = var_index;
     }
 
+    ///Go back to a previously recorded state and forget everything after it.
+    pub(crate) fn reset(&mut self, snapshot: (usize, usize)) {
+        self.go_to(snapshot);
+        for variable in self.variables.iter_mut().skip(self.index) {
+            *variable = None;
+        }
+    }
+
     ///Check if there are no more segments.
     pub fn is_empty(&self) -> bool {
         self.index == self.route.len()
diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index bdff6b9..a9dac4c 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -295,6 +295,8 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             environment = new_environment.replace_hyperlinks(old_hyperlinks).0;
         }
 
+        //Someone else may try the same path, so leave it as it was.
+        environment.route_state.reset(now);
 
         Err(environment)
     }
-- 
2.43.0


From f97888b8cab5a42c0ac38fbf87c45415dee6eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 22/22] fix: ending a stream whose head could not be sent
 panicked

---
 src/response.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 7a5581a..b6a38de 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -995,7 +995,11 @@ impl<'a, 'b> Chunked<'a, 'b> {
     }
 
     fn finish(&mut self) -> Result<(), Error> {
-        let mut writer = try!(self.writer.take().expect("can only finish once"));
+        let mut writer = match self.writer.take() {
+            Some(Ok(writer)) => writer,
+            None => return Ok(()), //It has already ended
+            Some(Err(e)) => return Err(e)
+        };
         let write_queue = try!(filter_end(self.filters, self.global, &mut self.filter_storage));
 
         for action in write_queue {
-- 
2.43.0

