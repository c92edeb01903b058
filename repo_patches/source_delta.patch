From 83b513f069e54118366899e1ccc57fdb8cff28f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 01/28] fix: don't match a REST endpoint when the request path
 is shorter than its pattern

---
 src/core/rest/path.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/rest/path.rs b/src/core/rest/path.rs
index 59fd608..504d4b4 100644
--- a/src/core/rest/path.rs
+++ b/src/core/rest/path.rs
@@ -53,7 +53,9 @@ impl Path {
     pub fn matches(&self, path: &str) -> Option<Variables> {
         let mut variables = Variables::default();
         let mut req_segments = path.split('/').filter(|s| !s.is_empty());
-        for (segment, req_segment) in self.segments.iter().zip(&mut req_segments) {
+        for segment in self.segments.iter() {
+            // a request with fewer segments than the pattern should not match
+            let req_segment = req_segments.next()?;
             match segment {
                 Segment::Literal(segment) => {
                     if segment != req_segment {
-- 
2.43.0


From 8f32b479d2e5decc03d3b1e07e21233357e7c230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 02/28] fix: read the parent value of an aliased field by its
 name, not its alias

---
 src/core/jit/exec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/jit/exec.rs b/src/core/jit/exec.rs
index c3155aa..0dcd772 100644
--- a/src/core/jit/exec.rs
+++ b/src/core/jit/exec.rs
@@ -117,7 +117,7 @@ where
             let value = match ctx.value() {
                 Some(value) => value.map_ref(&mut |value| {
                     Ok(value
-                        .get_key(&field.output_name)
+                        .get_key(&field.name)
                         .cloned()
                         // in case there is no value we still put some dumb empty value anyway
                         // to force execution of the nested fields even when parent object is not
-- 
2.43.0


From 0e1735cbc7c0009da9bb5d1d80da5d12ad29ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 03/28] fix: execute the root fields of a mutation serially

---
 src/core/jit/exec.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core/jit/exec.rs b/src/core/jit/exec.rs
index 0dcd772..6b4bf84 100644
--- a/src/core/jit/exec.rs
+++ b/src/core/jit/exec.rs
@@ -74,13 +74,22 @@ where
     }
 
     async fn init(&mut self) {
-        join_all(self.request.plan().selection.iter().map(|field| async {
+        let plan = self.request.plan();
+        let tasks = plan.selection.iter().map(|field| async {
             let ctx = Context::new(field, self.request);
             // TODO: with_args should be called on inside iter_field on any level, not only
             // for root fields
             self.execute(&ctx).await
-        }))
-        .await;
+        });
+
+        if plan.is_query() {
+            join_all(tasks).await;
+        } else {
+            // root fields of a mutation have side effects and must run one after another
+            for task in tasks {
+                let _ = task.await;
+            }
+        }
     }
 
     async fn iter_field<'b>(
-- 
2.43.0


From 0144aae781035170e6fe09355dba27d10682cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 04/28] fix: update the minimum max-age of a request under a
 single lock

---
 src/core/http/request_context.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/core/http/request_context.rs b/src/core/http/request_context.rs
index 23cd4be..cce4841 100644
--- a/src/core/http/request_context.rs
+++ b/src/core/http/request_context.rs
@@ -55,9 +55,6 @@ impl RequestContext {
             allowed_headers: HeaderMap::new(),
         }
     }
-    fn set_min_max_age_conc(&self, min_max_age: i32) {
-        *self.min_max_age.lock().unwrap() = Some(min_max_age);
-    }
     pub fn get_min_max_age(&self) -> Option<i32> {
         *self.min_max_age.lock().unwrap()
     }
@@ -71,15 +68,11 @@ impl RequestContext {
     }
 
     pub fn set_min_max_age(&self, max_age: i32) {
-        let min_max_age_lock = self.get_min_max_age();
-        match min_max_age_lock {
-            Some(min_max_age) if max_age < min_max_age => {
-                self.set_min_max_age_conc(max_age);
-            }
-            None => {
-                self.set_min_max_age_conc(max_age);
-            }
-            _ => {}
+        // compare and update under one lock: fields are resolved concurrently
+        let mut min_max_age = self.min_max_age.lock().unwrap();
+        match *min_max_age {
+            Some(current) if current <= max_age => {}
+            _ => *min_max_age = Some(max_age),
         }
     }
 
-- 
2.43.0


From 01763308738c81bd82ddbd4b041d313414323b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 05/28] fix: don't panic on a request body that isn't valid
 UTF-8

---
 src/core/http/request_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 562dc57..27dcc94 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -113,7 +113,7 @@ pub async fn graphql_request<T: DeserializeOwned + GraphQLRequestLike>(
         Err(err) => {
             tracing::error!(
                 "Failed to parse request: {}",
-                String::from_utf8(bytes.to_vec()).unwrap()
+                String::from_utf8_lossy(&bytes)
             );
 
             let mut response = async_graphql::Response::default();
-- 
2.43.0


From 99e5be289a250443f017649bd858c3ed3f4881ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 06/28] fix: keep the query string and inner path segments of
 REST requests

---
 src/core/http/request_handler.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 27dcc94..08f0333 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -251,7 +251,14 @@ async fn handle_rest_apis(
     app_ctx: Arc<AppContext>,
     req_counter: &mut RequestCounter,
 ) -> Result<Response<Body>> {
-    *request.uri_mut() = request.uri().path().replace(API_URL_PREFIX, "").parse()?;
+    // drop only the leading prefix: the rest of the path and the query are the user's
+    let path = request.uri().path();
+    let path = path.strip_prefix(API_URL_PREFIX).unwrap_or(path);
+    let path_and_query = match request.uri().query() {
+        Some(query) => format!("{path}?{query}"),
+        None => path.to_string(),
+    };
+    *request.uri_mut() = path_and_query.parse()?;
     let req_ctx = Arc::new(create_request_context(&request, app_ctx.as_ref()));
     if let Some(p_request) = app_ctx.endpoints.matches(&request) {
         let http_route = format!("{API_URL_PREFIX}{}", p_request.path.as_str());
-- 
2.43.0


From 4504d93106daae109eb8c59fac39507588d8b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 07/28] fix: treat a plan with any protected field as protected

---
 src/core/jit/transform/check_protected.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/jit/transform/check_protected.rs b/src/core/jit/transform/check_protected.rs
index c2c86a8..d90bc62 100644
--- a/src/core/jit/transform/check_protected.rs
+++ b/src/core/jit/transform/check_protected.rs
@@ -14,7 +14,7 @@ impl<A> CheckProtected<A> {
     }
 }
 
-/// Checks if the IR will always evaluate to a Protected Value
+/// Checks if evaluating the IR may require authentication
 pub fn is_protected(ir: &IR) -> bool {
     match ir {
         IR::Dynamic(_) => false,
@@ -25,7 +25,7 @@ pub fn is_protected(ir: &IR) -> bool {
         IR::Protect(_, _) => true,
         IR::Map(map) => is_protected(&map.input),
         IR::Pipe(ir, ir1) => is_protected(ir) || is_protected(ir1),
-        IR::Merge(vec) => vec.iter().all(is_protected),
+        IR::Merge(vec) => vec.iter().any(is_protected),
         IR::Discriminate(_, ir) => is_protected(ir),
         IR::Entity(hash_map) => hash_map.values().any(is_protected),
         IR::Service(_) => false,
@@ -37,10 +37,9 @@ impl<A> Transform for CheckProtected<A> {
     type Error = Infallible;
 
     fn transform(&self, mut plan: Self::Value) -> Valid<Self::Value, Self::Error> {
-        plan.is_protected = plan.iter_dfs().all(|field| match field.ir {
-            Some(ref ir) => is_protected(ir),
-            None => true,
-        });
+        plan.is_protected = plan
+            .iter_dfs()
+            .any(|field| field.ir.as_ref().is_some_and(is_protected));
 
         Valid::succeed(plan)
     }
-- 
2.43.0


From 131c08fb44c63b28db00a3e723bd00ca8980269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 08/28] fix: don't share plans between operations and constant
 responses between variables

---
 src/core/jit/graphql_executor.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/core/jit/graphql_executor.rs b/src/core/jit/graphql_executor.rs
index e1c131c..f52af15 100644
--- a/src/core/jit/graphql_executor.rs
+++ b/src/core/jit/graphql_executor.rs
@@ -65,6 +65,7 @@ impl JITExecutor {
     fn req_hash(request: &async_graphql::Request) -> OPHash {
         let mut hasher = TailcallHasher::default();
         request.query.hash(&mut hasher);
+        request.operation_name.hash(&mut hasher);
 
         OPHash::new(hasher.finish())
     }
@@ -75,13 +76,16 @@ impl JITExecutor {
         &self,
         request: async_graphql::Request,
     ) -> impl Future<Output = AnyResponse<Vec<u8>>> + Send + '_ {
-        // TODO: hash considering only the query itself ignoring specified operation and
-        // variables that could differ for the same query
+        // The plan depends only on the query and the selected operation. The variables
+        // affect only the response.
         let hash = Self::req_hash(&request);
+        let has_variables = !request.variables.is_empty();
 
         async move {
-            if let Some(response) = self.app_ctx.const_execution_cache.get(&hash) {
-                return response.clone();
+            if !has_variables {
+                if let Some(response) = self.app_ctx.const_execution_cache.get(&hash) {
+                    return response.clone();
+                }
             }
 
             let jit_request = jit::Request::from(request);
@@ -111,8 +115,9 @@ impl JITExecutor {
                 self.exec(exec, jit_request).await
             };
 
-            // Cache the response if it's constant and not wrapped with protected.
-            if is_const && !is_protected {
+            // Cache the response if it's constant and not wrapped with protected. With
+            // variables the response is different even for the same query.
+            if is_const && !is_protected && !has_variables {
                 self.app_ctx
                     .const_execution_cache
                     .insert(hash, response.clone());
-- 
2.43.0


From e4f1e7a761b9f179cd8360fa3e0821b8fc03dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:26 +0000
Subject: [PATCH 09/28] fix: deduplicate every request of a batch as its own
 operation

---
 src/core/async_graphql_hyper.rs  | 33 ++++++++++++++++++++------------
 src/core/jit/graphql_executor.rs | 20 ++++++++++++++-----
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/core/async_graphql_hyper.rs b/src/core/async_graphql_hyper.rs
index 5518ea5..47d815e 100644
--- a/src/core/async_graphql_hyper.rs
+++ b/src/core/async_graphql_hyper.rs
@@ -16,6 +16,25 @@ use super::jit::{BatchResponse as JITBatchResponse, JITExecutor};
 #[derive(PartialEq, Eq, Clone, Hash, Debug)]
 pub struct OperationId(u64);
 
+impl OperationId {
+    /// Identifies a single request of the batch that has this id.
+    pub fn of_batched(&self, request: &async_graphql::Request) -> OperationId {
+        let mut hasher = TailcallHasher::default();
+        self.0.hash(&mut hasher);
+        hash_request(request, &mut hasher);
+        OperationId(hasher.finish())
+    }
+}
+
+fn hash_request<H: Hasher>(request: &async_graphql::Request, state: &mut H) {
+    request.query.hash(state);
+    request.operation_name.hash(state);
+    for (name, value) in request.variables.iter() {
+        name.hash(state);
+        value.to_string().hash(state);
+    }
+}
+
 #[async_trait::async_trait]
 pub trait GraphQLRequestLike: Hash + Send {
     fn data<D: Any + Clone + Send + Sync>(self, data: D) -> Self;
@@ -60,12 +79,7 @@ impl Hash for GraphQLBatchRequest {
     // one.
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         for request in self.0.iter() {
-            request.query.hash(state);
-            request.operation_name.hash(state);
-            for (name, value) in request.variables.iter() {
-                name.hash(state);
-                value.to_string().hash(state);
-            }
+            hash_request(request, state);
         }
     }
 }
@@ -101,12 +115,7 @@ pub struct GraphQLRequest(pub async_graphql::Request);
 impl GraphQLRequest {}
 impl Hash for GraphQLRequest {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        self.0.query.hash(state);
-        self.0.operation_name.hash(state);
-        for (name, value) in self.0.variables.iter() {
-            name.hash(state);
-            value.to_string().hash(state);
-        }
+        hash_request(&self.0, state);
     }
 }
 #[async_trait::async_trait]
diff --git a/src/core/jit/graphql_executor.rs b/src/core/jit/graphql_executor.rs
index f52af15..685ed9d 100644
--- a/src/core/jit/graphql_executor.rs
+++ b/src/core/jit/graphql_executor.rs
@@ -44,13 +44,14 @@ impl JITExecutor {
     #[inline(always)]
     async fn dedupe_and_exec(
         &self,
+        operation_id: &OperationId,
         exec: ConstValueExecutor,
         jit_request: jit::Request<ConstValue>,
     ) -> AnyResponse<Vec<u8>> {
         let out = self
             .app_ctx
             .dedupe_operation_handler
-            .dedupe(&self.operation_id, || {
+            .dedupe(operation_id, || {
                 Box::pin(async move {
                     let resp = self.exec(exec, jit_request).await;
                     Ok(resp)
@@ -75,6 +76,14 @@ impl JITExecutor {
     pub fn execute(
         &self,
         request: async_graphql::Request,
+    ) -> impl Future<Output = AnyResponse<Vec<u8>>> + Send + '_ {
+        self.execute_as(self.operation_id.clone(), request)
+    }
+
+    fn execute_as(
+        &self,
+        operation_id: OperationId,
+        request: async_graphql::Request,
     ) -> impl Future<Output = AnyResponse<Vec<u8>>> + Send + '_ {
         // The plan depends only on the query and the selected operation. The variables
         // affect only the response.
@@ -110,7 +119,7 @@ impl JITExecutor {
             let is_protected = exec.plan.is_protected;
 
             let response = if exec.plan.can_dedupe() {
-                self.dedupe_and_exec(exec, jit_request).await
+                self.dedupe_and_exec(&operation_id, exec, jit_request).await
             } else {
                 self.exec(exec, jit_request).await
             };
@@ -132,9 +141,10 @@ impl JITExecutor {
         match batch_request {
             BatchRequest::Single(request) => BatchResponse::Single(self.execute(request).await),
             BatchRequest::Batch(requests) => {
-                let futs = FuturesOrdered::from_iter(
-                    requests.into_iter().map(|request| self.execute(request)),
-                );
+                // every request of the batch is a separate operation
+                let futs = FuturesOrdered::from_iter(requests.into_iter().map(|request| {
+                    self.execute_as(self.operation_id.of_batched(&request), request)
+                }));
                 let responses = futs.collect::<Vec<_>>().await;
                 BatchResponse::Batch(responses)
             }
-- 
2.43.0


From f0d465d99b1ae41ce6e6543096fa3805be85305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 10/28] fix: respect the dedupe setting of a resolver with
 renamed enum values

---
 src/core/jit/transform/check_dedupe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/jit/transform/check_dedupe.rs b/src/core/jit/transform/check_dedupe.rs
index 8287033..a3492bd 100644
--- a/src/core/jit/transform/check_dedupe.rs
+++ b/src/core/jit/transform/check_dedupe.rs
@@ -20,13 +20,13 @@ fn check_dedupe(ir: &IR) -> bool {
         IR::Cache(cache) => cache.io.dedupe(),
         IR::Path(ir, _) => check_dedupe(ir),
         IR::Protect(_, ir) => check_dedupe(ir),
+        IR::Map(map) => check_dedupe(&map.input),
         IR::Pipe(ir, ir1) => check_dedupe(ir) && check_dedupe(ir1),
         IR::Merge(vec) => vec.iter().all(check_dedupe),
         IR::Discriminate(_, ir) => check_dedupe(ir),
         IR::Entity(hash_map) => hash_map.values().all(check_dedupe),
         IR::Dynamic(_) => true,
         IR::ContextPath(_) => true,
-        IR::Map(_) => true,
         IR::Service(_) => true,
     }
 }
-- 
2.43.0


From c3f87253f0e16188828a1034132d74fb992d8f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 11/28] fix: don't share cached GraphQL and gRPC responses
 between different headers or upstreams

---
 src/core/graphql/request_template.rs | 7 +++++++
 src/core/grpc/request_template.rs    | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/core/graphql/request_template.rs b/src/core/graphql/request_template.rs
index 9e849d3..e640b27 100644
--- a/src/core/graphql/request_template.rs
+++ b/src/core/graphql/request_template.rs
@@ -196,7 +196,14 @@ impl<Ctx: PathGraphql + HasHeaders + GraphQLOperationContext> CacheKey<Ctx> for
     fn cache_key(&self, ctx: &Ctx) -> Option<IoId> {
         let mut hasher = TailcallHasher::default();
         let graphql_query = self.render_graphql_query(ctx);
+        self.url.hash(&mut hasher);
         graphql_query.hash(&mut hasher);
+
+        for (name, value) in self.create_headers(ctx).iter().chain(ctx.headers().iter()) {
+            name.hash(&mut hasher);
+            value.hash(&mut hasher);
+        }
+
         Some(IoId::new(hasher.finish()))
     }
 }
diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index 4643c59..8aed0da 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -122,6 +122,12 @@ impl<Ctx: PathString + HasHeaders> CacheKey<Ctx> for RequestTemplate {
         let mut hasher = TailcallHasher::default();
         let rendered_req = self.render(ctx).unwrap();
         rendered_req.hash(&mut hasher);
+
+        for (name, value) in rendered_req.headers.iter() {
+            name.hash(&mut hasher);
+            value.hash(&mut hasher);
+        }
+
         Some(IoId::new(hasher.finish()))
     }
 }
-- 
2.43.0


From da67f3e92a27dcb85936e309577a669a157bb8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 12/28] fix: report an invalid upstream URL as an error instead
 of panicking in the cache key

---
 src/core/grpc/request_template.rs | 2 +-
 src/core/http/request_template.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/grpc/request_template.rs b/src/core/grpc/request_template.rs
index 8aed0da..16eebf5 100644
--- a/src/core/grpc/request_template.rs
+++ b/src/core/grpc/request_template.rs
@@ -120,7 +120,7 @@ impl RenderedRequestTemplate {
 impl<Ctx: PathString + HasHeaders> CacheKey<Ctx> for RequestTemplate {
     fn cache_key(&self, ctx: &Ctx) -> Option<IoId> {
         let mut hasher = TailcallHasher::default();
-        let rendered_req = self.render(ctx).unwrap();
+        let rendered_req = self.render(ctx).ok()?;
         rendered_req.hash(&mut hasher);
 
         for (name, value) in rendered_req.headers.iter() {
diff --git a/src/core/http/request_template.rs b/src/core/http/request_template.rs
index 1c57f14..0cf53d7 100644
--- a/src/core/http/request_template.rs
+++ b/src/core/http/request_template.rs
@@ -272,7 +272,7 @@ impl<Ctx: PathString + HasHeaders + PathValue> CacheKey<Ctx> for RequestTemplate
             body.render(ctx).hash(state)
         }
 
-        let url = self.create_url(ctx).unwrap();
+        let url = self.create_url(ctx).ok()?;
         url.hash(state);
 
         Some(IoId::new(hasher.finish()))
-- 
2.43.0


From 12f715e3c289224ea74de7992fe94b27931a1cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 13/28] fix: rewrite every resolver of a field with several
 resolvers

IR::modify_io skipped the parts of IR::Merge, so a field with several
@graphQL resolvers sent queries without a selection set.
---
 src/core/ir/model.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/ir/model.rs b/src/core/ir/model.rs
index f4fbfdb..ff25e0b 100644
--- a/src/core/ir/model.rs
+++ b/src/core/ir/model.rs
@@ -148,6 +148,11 @@ impl IR {
                     ir.modify_io(io_modifier);
                 }
             }
+            IR::Merge(irs) => {
+                for ir in irs.iter_mut() {
+                    ir.modify_io(io_modifier);
+                }
+            }
             IR::Map(map) => map.input.modify_io(io_modifier),
             _ => {}
         }
-- 
2.43.0


From 6de5efb191e88a640ac8fad80ffdf55836f5498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 14/28] fix: accept any query in an application/graphql body

A query with a backslash was pasted unquoted into the JSON request, and one
with unprintable characters was quoted with escapes that JSON doesn't know.
---
 src/core/http/request_handler.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index 08f0333..cb56865 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -94,12 +94,11 @@ pub async fn graphql_request<T: DeserializeOwned + GraphQLRequestLike>(
     let bytes = if req.headers.get("content-type")
         == Some(&HeaderValue::from_str("application/graphql")?)
     {
-        let decoded_str = String::from_utf8_lossy(&bytes).clone();
-        let enriched_str = if decoded_str.contains("\\") {
-            format!(r#"{{"query": {} }}"#, decoded_str)
-        } else {
-            format!(r#"{{"query": {:?} }}"#, decoded_str)
-        };
+        let decoded_str = String::from_utf8_lossy(&bytes);
+        // the body is the query, either as is or as a JSON string
+        let query = serde_json::from_str::<String>(&decoded_str)
+            .unwrap_or_else(|_| decoded_str.to_string());
+        let enriched_str = serde_json::json!({ "query": query }).to_string();
         hyper::body::to_bytes(enriched_str).await?
     } else {
         bytes
-- 
2.43.0


From ac0c95a9cee7d348377f7eccb8ae8ff279cfda3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 15/28] fix: forward every value of a repeated allowed header

---
 src/core/http/request_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http/request_handler.rs b/src/core/http/request_handler.rs
index cb56865..3cd9d18 100644
--- a/src/core/http/request_handler.rs
+++ b/src/core/http/request_handler.rs
@@ -154,7 +154,7 @@ fn create_allowed_headers(headers: &HeaderMap, allowed: &BTreeSet<String>) -> He
             .iter()
             .any(|allowed_key| allowed_key.eq_ignore_ascii_case(k.as_str()))
         {
-            new_headers.insert(k, v.clone());
+            new_headers.append(k, v.clone());
         }
     }
     new_headers
-- 
2.43.0


From 003d3151367cf73d6346892460946489428bf8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:06 +0000
Subject: [PATCH 16/28] fix: don't let a skipped field hide another one with
 the same output name

---
 src/core/jit/builder.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/jit/builder.rs b/src/core/jit/builder.rs
index db3cfcf..3dda87f 100644
--- a/src/core/jit/builder.rs
+++ b/src/core/jit/builder.rs
@@ -147,10 +147,6 @@ impl<'a> Builder<'a> {
                         .as_ref()
                         .map(|a| a.node.as_str())
                         .unwrap_or(field_name);
-                    if visited.contains(output_name) {
-                        continue;
-                    }
-                    visited.insert(output_name);
                     let conditions = self.include(&gql_field.directives);
 
                     // Skip fields based on GraphQL's skip/include conditions
@@ -158,6 +154,12 @@ impl<'a> Builder<'a> {
                         continue;
                     }
 
+                    // a skipped field doesn't hide another one with the same output name
+                    if visited.contains(output_name) {
+                        continue;
+                    }
+                    visited.insert(output_name);
+
                     let mut directives = Vec::with_capacity(gql_field.directives.len());
                     for directive in &gql_field.directives {
                         let directive = &directive.node;
-- 
2.43.0


From 69f4fd1947f6270c43a3efd8cd8265c588ecb8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:55 +0000
Subject: [PATCH 17/28] fix: check the items of a list argument against the
 item type

The items were checked against the type of the list itself, so a null item
of [Input]! was rejected and one of [Input!] accepted.
---
 src/core/jit/transform/input_resolver.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/jit/transform/input_resolver.rs b/src/core/jit/transform/input_resolver.rs
index 3787719..5edf2e4 100644
--- a/src/core/jit/transform/input_resolver.rs
+++ b/src/core/jit/transform/input_resolver.rs
@@ -196,6 +196,10 @@ where
                 }
             }
         } else if let Some(arr) = value.as_array_mut() {
+            let item_type = match type_of {
+                Type::List { of_type, .. } => of_type,
+                Type::Named { .. } => type_of,
+            };
             for (i, item) in arr.iter_mut().enumerate() {
                 let parent_name = format!("{}.{}.{}", parent_name, arg_name, i);
 
@@ -203,7 +207,7 @@ where
                     index,
                     &parent_name,
                     &i.to_string(),
-                    type_of,
+                    item_type,
                     &None,
                     Some(item.clone()),
                 )?
-- 
2.43.0


From eeeed1aea1867464f38f4389ccd44ec06ba91c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:34 +0000
Subject: [PATCH 18/28] fix: keep the error path in step when a field resolves
 to null

Returning early from Synth::iter left the field in the path, so errors of
the fields after it were reported under it.
---
 src/core/jit/synth/synth.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index 221fa95..2a69088 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -72,20 +72,19 @@ where
 
         let result = match self.store.get(&node.id) {
             Some(value) => {
-                let mut value = value.as_ref().map_err(Clone::clone)?;
-
-                for index in data_path.as_slice() {
-                    if let Some(arr) = value.as_array() {
-                        value = &arr[*index];
-                    } else {
-                        return Ok(Output::null());
+                let value = value.as_ref().map_err(Clone::clone)?;
+                let value = data_path
+                    .as_slice()
+                    .iter()
+                    .try_fold(value, |value, index| value.as_array().map(|arr| &arr[*index]));
+
+                match value {
+                    None => Ok(Output::null()),
+                    Some(value) if node.type_of.is_list() != value.as_array().is_some() => {
+                        self.node_nullable_guard(node, path, None)
                     }
+                    Some(value) => self.iter_inner(node, value, data_path, path),
                 }
-
-                if node.type_of.is_list() != value.as_array().is_some() {
-                    return self.node_nullable_guard(node, path, None);
-                }
-                self.iter_inner(node, value, data_path, path)
             }
             None => match value {
                 Some(result) => self.iter_inner(node, result, data_path, path),
-- 
2.43.0


From c0b5b24a3ad88e52186c9992af91ca00e890df68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:34 +0000
Subject: [PATCH 19/28] fix: check a null list against the type of the list and
 not of its items

---
 src/core/jit/synth/synth.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/jit/synth/synth.rs b/src/core/jit/synth/synth.rs
index 2a69088..cc624ec 100644
--- a/src/core/jit/synth/synth.rs
+++ b/src/core/jit/synth/synth.rs
@@ -73,10 +73,9 @@ where
         let result = match self.store.get(&node.id) {
             Some(value) => {
                 let value = value.as_ref().map_err(Clone::clone)?;
-                let value = data_path
-                    .as_slice()
-                    .iter()
-                    .try_fold(value, |value, index| value.as_array().map(|arr| &arr[*index]));
+                let value = data_path.as_slice().iter().try_fold(value, |value, index| {
+                    value.as_array().map(|arr| &arr[*index])
+                });
 
                 match value {
                     None => Ok(Output::null()),
@@ -87,6 +86,8 @@ where
                 }
             }
             None => match value {
+                // the list itself, not its items, has to be nullable
+                Some(result) if result.is_null() => self.node_nullable_guard(node, path, None),
                 Some(result) => self.iter_inner(node, result, data_path, path),
                 None => self.node_nullable_guard(node, path, root_name),
             },
-- 
2.43.0


From 7f35b3412859d25dc1664784dba8b64b2ff089af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:28 +0000
Subject: [PATCH 20/28] fix: report an exception thrown by a JS hook instead of
 ignoring the hook

---
 src/cli/javascript/runtime.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cli/javascript/runtime.rs b/src/cli/javascript/runtime.rs
index a2e7670..0b682b9 100644
--- a/src/cli/javascript/runtime.rs
+++ b/src/cli/javascript/runtime.rs
@@ -171,10 +171,11 @@ fn call(name: String, event: Event) -> Result<Option<Command>, worker::Error> {
                     .map_err(|e| worker::Error::Rquickjs(e.to_string()))?,
             };
 
-            let command: Option<Value> = function.call(args).ok();
-            command
-                .map(|output| Command::from_js(&ctx, output))
-                .transpose()
+            let command: Value = function
+                .call(args)
+                .map_err(|e| worker::Error::Rquickjs(e.to_string()))?;
+            Command::from_js(&ctx, command)
+                .map(Some)
                 .map_err(|e| worker::Error::DeserializeFailed(e.to_string()))
         })
     })
-- 
2.43.0


From 9b785b6dd83d97d83dc24c0c0e9c2b1c562c32f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:15 +0000
Subject: [PATCH 21/28] fix: print the default value of an input field before
 its directives

---
 src/core/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/document.rs b/src/core/document.rs
index 933c72c..1e7577e 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -307,8 +307,8 @@ fn print_input_value(field: &async_graphql::parser::types::InputValueDefinition)
         doc,
         field.name.node,
         field.ty.node,
-        directives_str,
-        print_default_value(field.default_value.as_ref())
+        print_default_value(field.default_value.as_ref()),
+        directives_str
     )
 }
 
-- 
2.43.0


From a76a399365cd8c631528e629f79cbba9362f029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:15 +0000
Subject: [PATCH 22/28] fix: print the description of a union

---
 src/core/config/into_document.rs | 2 +-
 src/core/document.rs             | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/config/into_document.rs b/src/core/config/into_document.rs
index 5df4f03..861e5e4 100644
--- a/src/core/config/into_document.rs
+++ b/src/core/config/into_document.rs
@@ -162,7 +162,7 @@ fn config_document(config: &Config) -> ServiceDocument {
     for (name, union) in config.unions.iter() {
         definitions.push(TypeSystemDefinition::Type(pos(TypeDefinition {
             extend: false,
-            description: None,
+            description: union.doc.clone().map(pos),
             name: pos(Name::new(name)),
             directives: Vec::new(),
             kind: TypeKind::Union(UnionType {
diff --git a/src/core/document.rs b/src/core/document.rs
index 1e7577e..14c15cb 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -132,8 +132,10 @@ fn print_type_def(type_def: &TypeDefinition) -> String {
         }
         TypeKind::Union(union) => {
             let directives = print_pos_directives(&type_def.directives);
+            let doc = get_formatted_docs(type_def.description.as_ref().map(|d| d.node.clone()), 0);
             format!(
-                "union {}{} = {}\n",
+                "{}union {}{} = {}\n",
+                doc,
                 type_def.name.node,
                 directives,
                 union
-- 
2.43.0


From 2240022ed658dc576e99a69c9237182fdf89d802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:15 +0000
Subject: [PATCH 23/28] fix: print the description and the directives of an
 interface

---
 src/core/document.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/document.rs b/src/core/document.rs
index 14c15cb..f4fb6c2 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -176,10 +176,14 @@ fn print_type_def(type_def: &TypeDefinition) -> String {
             } else {
                 String::new()
             };
+            let directives = print_pos_directives(&type_def.directives);
+            let doc = get_formatted_docs(type_def.description.as_ref().map(|d| d.node.clone()), 0);
             format!(
-                "interface {} {}{{\n{}\n}}\n",
+                "{}interface {} {}{}{{\n{}\n}}\n",
+                doc,
                 type_def.name.node,
                 implements,
+                directives,
                 interface
                     .fields
                     .iter()
-- 
2.43.0


From a6d905c64c77ea04313957981da511f4d923f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 24/28] fix: print the arguments of the fields of an interface

---
 src/core/config/into_document.rs | 37 ++++++++++++++++----------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/core/config/into_document.rs b/src/core/config/into_document.rs
index 861e5e4..55ced86 100644
--- a/src/core/config/into_document.rs
+++ b/src/core/config/into_document.rs
@@ -12,6 +12,22 @@ fn transform_default_value(value: Option<serde_json::Value>) -> Option<ConstValu
     value.map(ConstValue::from_json).and_then(Result::ok)
 }
 
+fn field_arguments(field: &super::Field) -> Vec<Positioned<InputValueDefinition>> {
+    field
+        .args
+        .iter()
+        .map(|(name, arg)| {
+            pos(InputValueDefinition {
+                description: arg.doc.clone().map(pos),
+                name: pos(Name::new(name.clone())),
+                ty: pos((&arg.type_of).into()),
+                default_value: transform_default_value(arg.default_value.clone()).map(pos),
+                directives: Vec::new(),
+            })
+        })
+        .collect()
+}
+
 fn config_document(config: &Config) -> ServiceDocument {
     let mut definitions = Vec::new();
     let mut directives = vec![
@@ -76,7 +92,7 @@ fn config_document(config: &Config) -> ServiceDocument {
                         pos(FieldDefinition {
                             description: field.doc.clone().map(pos),
                             name: pos(Name::new(name.clone())),
-                            arguments: vec![],
+                            arguments: field_arguments(field),
                             ty: pos(type_of.into()),
                             directives,
                         })
@@ -118,24 +134,7 @@ fn config_document(config: &Config) -> ServiceDocument {
                     .map(|(name, field)| {
                         let type_of = &field.type_of;
                         let directives = field_directives(field);
-
-                        let args_map = field.args.clone();
-                        let args = args_map
-                            .iter()
-                            .map(|(name, arg)| {
-                                pos(async_graphql::parser::types::InputValueDefinition {
-                                    description: arg.doc.clone().map(pos),
-                                    name: pos(Name::new(name.clone())),
-                                    ty: pos((&arg.type_of).into()),
-
-                                    default_value: transform_default_value(
-                                        arg.default_value.clone(),
-                                    )
-                                    .map(pos),
-                                    directives: Vec::new(),
-                                })
-                            })
-                            .collect::<Vec<Positioned<InputValueDefinition>>>();
+                        let args = field_arguments(field);
 
                         pos(async_graphql::parser::types::FieldDefinition {
                             description: field.doc.clone().map(pos),
-- 
2.43.0


From b28fb272b4f4b6d61287583fefe5197cc593e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 25/28] fix: print the directives of an argument

---
 src/core/config/into_document.rs |  6 +++++-
 src/core/document.rs             | 11 +++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/core/config/into_document.rs b/src/core/config/into_document.rs
index 55ced86..4e3130d 100644
--- a/src/core/config/into_document.rs
+++ b/src/core/config/into_document.rs
@@ -22,7 +22,11 @@ fn field_arguments(field: &super::Field) -> Vec<Positioned<InputValueDefinition>
                 name: pos(Name::new(name.clone())),
                 ty: pos((&arg.type_of).into()),
                 default_value: transform_default_value(arg.default_value.clone()).map(pos),
-                directives: Vec::new(),
+                directives: arg
+                    .modify
+                    .iter()
+                    .map(|modify| pos(modify.to_directive()))
+                    .collect(),
             })
         })
         .collect()
diff --git a/src/core/document.rs b/src/core/document.rs
index f4fb6c2..f855470 100644
--- a/src/core/document.rs
+++ b/src/core/document.rs
@@ -274,13 +274,16 @@ fn print_field(field: &async_graphql::parser::types::FieldDefinition) -> String
             .iter()
             .map(|arg| {
                 let nullable = if arg.node.ty.node.nullable { "" } else { "!" };
-                format!(
-                    "{}: {}{}{}",
+                let directives = print_pos_directives(&arg.node.directives);
+                let arg = format!(
+                    "{}: {}{}{} {}",
                     arg.node.name,
                     arg.node.ty.node.base,
                     nullable,
-                    print_default_value(arg.node.default_value.as_ref())
-                )
+                    print_default_value(arg.node.default_value.as_ref()),
+                    directives
+                );
+                arg.trim_end().to_string()
             })
             .collect::<Vec<String>>()
             .join(", ");
-- 
2.43.0


From a0670cb66341394a590cde5610903503aa6c1867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:37 +0000
Subject: [PATCH 26/28] fix: report an invalid @modify on an argument instead
 of ignoring it

---
 src/core/config/from_document.rs | 34 +++++++++++++++++---------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/core/config/from_document.rs b/src/core/config/from_document.rs
index 2009693..db53bd7 100644
--- a/src/core/config/from_document.rs
+++ b/src/core/config/from_document.rs
@@ -295,7 +295,9 @@ fn to_input_object_fields(
     to_fields_inner(input_object_fields, to_input_object_field)
 }
 fn to_field(field_definition: &FieldDefinition) -> Valid<config::Field, String> {
-    to_common_field(field_definition, to_args(field_definition), None)
+    to_args(field_definition)
+        .trace(pos_name_to_string(field_definition.name()).as_str())
+        .and_then(|args| to_common_field(field_definition, args, None))
 }
 fn to_input_object_field(field_definition: &InputValueDefinition) -> Valid<config::Field, String> {
     to_common_field(
@@ -360,34 +362,34 @@ where
         .trace(pos_name_to_string(field.name()).as_str())
 }
 
-fn to_args(field_definition: &FieldDefinition) -> IndexMap<String, config::Arg> {
-    let mut args = IndexMap::new();
-
-    for arg in field_definition.arguments.iter() {
+fn to_args(field_definition: &FieldDefinition) -> Valid<IndexMap<String, config::Arg>, String> {
+    Valid::from_iter(field_definition.arguments.iter(), |arg| {
         let arg_name = pos_name_to_string(&arg.node.name);
-        let arg_val = to_arg(&arg.node);
-        args.insert(arg_name, arg_val);
-    }
-
-    args
+        to_arg(&arg.node)
+            .trace(&arg_name)
+            .map(|arg_val| (arg_name, arg_val))
+    })
+    .map(IndexMap::from_iter)
 }
-fn to_arg(input_value_definition: &InputValueDefinition) -> config::Arg {
+fn to_arg(input_value_definition: &InputValueDefinition) -> Valid<config::Arg, String> {
     let type_of = &input_value_definition.ty.node;
     let doc = input_value_definition
         .description
         .to_owned()
         .map(|pos| pos.node);
-    let modify = Modify::from_directives(input_value_definition.directives.iter())
-        .to_result()
-        .ok()
-        .flatten();
     let default_value = if let Some(pos) = input_value_definition.default_value.as_ref() {
         let value = &pos.node;
         serde_json::to_value(value).ok()
     } else {
         None
     };
-    config::Arg { type_of: type_of.into(), doc, modify, default_value }
+
+    Modify::from_directives(input_value_definition.directives.iter()).map(|modify| config::Arg {
+        type_of: type_of.into(),
+        doc,
+        modify,
+        default_value,
+    })
 }
 
 fn to_union(union_type: UnionType, doc: &Option<String>) -> Valid<Union, String> {
-- 
2.43.0


From 4ae0a1c944b60e0dc4aad13b4af03ef20d579c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:37 +0000
Subject: [PATCH 27/28] fix: keep the description of a custom scalar

---
 src/core/config/from_document.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/config/from_document.rs b/src/core/config/from_document.rs
index db53bd7..18bfda8 100644
--- a/src/core/config/from_document.rs
+++ b/src/core/config/from_document.rs
@@ -167,7 +167,9 @@ fn to_types(
             .trace(&type_name)
             .some(),
             TypeKind::Union(_) => Valid::none(),
-            TypeKind::Scalar => Valid::succeed(Some(to_scalar_type())),
+            TypeKind::Scalar => {
+                Valid::succeed(Some(to_scalar_type(&type_definition.node.description)))
+            }
         }
         .map(|option| (type_name, option))
     })
@@ -178,8 +180,9 @@ fn to_types(
         )
     })
 }
-fn to_scalar_type() -> config::Type {
-    config::Type { ..Default::default() }
+fn to_scalar_type(description: &Option<Positioned<String>>) -> config::Type {
+    let doc = description.to_owned().map(|pos| pos.node);
+    config::Type { doc, ..Default::default() }
 }
 fn to_union_types(
     type_definitions: &[&Positioned<TypeDefinition>],
-- 
2.43.0


From 6274b1aeeb29849e40d4968ee54b75b5b18caf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:58 +0000
Subject: [PATCH 28/28] fix: look up a cached resource under the key it is
 stored under

---
 src/core/resource_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/resource_reader.rs b/src/core/resource_reader.rs
index 5d0aed4..d7bdf1c 100644
--- a/src/core/resource_reader.rs
+++ b/src/core/resource_reader.rs
@@ -183,7 +183,7 @@ impl Reader for Direct {
 #[derive(Clone)]
 pub struct Cached {
     direct: Direct,
-    // Cache file content, path -> content
+    // Cache file content, hash of the resource -> content
     cache: Arc<Mutex<HashMap<String, String>>>,
 }
 
@@ -200,12 +200,13 @@ impl Reader for Cached {
         // check cache
         let resource: Resource = file.into();
         let file_path = resource.to_string();
+        let cache_key = resource.calculate_hash().to_string();
         let content = self
             .cache
             .as_ref()
             .lock()
             .unwrap()
-            .get(&resource.calculate_hash().to_string())
+            .get(&cache_key)
             .map(|v| v.to_owned());
         let content = if let Some(content) = content {
             content.to_owned()
@@ -215,7 +216,7 @@ impl Reader for Cached {
                 .as_ref()
                 .lock()
                 .unwrap()
-                .insert(file_path.to_owned(), file_read.content.clone());
+                .insert(cache_key, file_read.content.clone());
             file_read.content
         };
 
-- 
2.43.0

