From 04923de2c7e619bfe19ba786447e9764dfa5e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 01/14] fix: dispatch queued work to idle runners only, one
 address after the other

A finished runner advanced the cursor once and found nothing when that
address had no work, while other addresses waited forever; addresses were
never dropped, so the queue stayed full for good; jobs were handed to busy
runners, so one address's backlog delayed all others.
---
 src/queue.rs | 48 +++++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/queue.rs b/src/queue.rs
index 918eb0c..7423239 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -90,13 +90,15 @@ enum InnerManagerMessage {
 }
 
 type InnerManagerQueue = HashMap<Rc<String>, VecDeque<Box<dyn Runnable>>>;
-type InnerManagerIP = Vec<Rc<String>>;
+type InnerManagerIP = VecDeque<Rc<String>>;
 
 struct InnerManager {
     queues: InnerManagerQueue,
     runners: HashMap<usize, RunnerThread>,
+    /// IPs with queued work, in the order in which they are to be served
     ips: InnerManagerIP,
-    currnet_index: usize,
+    /// runners that have no work
+    idle: VecDeque<usize>,
     queue_length: usize,
 }
 
@@ -114,31 +116,31 @@ impl Drop for InnerManager {
 }
 
 impl InnerManager {
+    /// hands the next job to an idle runner, one IP after the other
     fn dispatch_to(&mut self, name: usize) {
-        if let Some(r) = self.runners.get(&name) {
-            let ip_vec_len = { self.ips.len() };
-
-            if self.currnet_index < ip_vec_len - 1 {
-                self.currnet_index += 1
-            } else {
-                self.currnet_index = 0;
+        let ip = match self.ips.pop_front() {
+            Some(ip) => ip,
+            None => {
+                self.idle.push_back(name);
+                return;
             }
+        };
 
-            let ip = self.ips.get(self.currnet_index).unwrap();
-            let ip_queue = self.queues.get_mut(ip).unwrap();
-            if let Some(work) = ip_queue.pop_front() {
-                r.tx.send(Message::Prove(work)).unwrap();
-            }
+        let ip_queue = self.queues.get_mut(&ip).unwrap();
+        let work = ip_queue.pop_front().unwrap();
+        if ip_queue.is_empty() {
+            self.queues.remove(&ip);
+        } else {
+            self.ips.push_back(ip);
         }
+
+        let r = self.runners.get(&name).unwrap();
+        r.tx.send(Message::Prove(work)).unwrap();
     }
 
     fn dispatch(&mut self) {
-        for name in 0..self.runners.len() {
-            if !self.runners.contains_key(&name) {
-                panic!("unable to find thread: {name}");
-            } else {
-                self.dispatch_to(name)
-            }
+        if let Some(name) = self.idle.pop_front() {
+            self.dispatch_to(name);
         }
     }
 
@@ -148,12 +150,12 @@ impl InnerManager {
             runners.insert(name, RunnerThread::spawn(name, tx.clone()));
         }
         let queues = HashMap::default();
-        let ips = Vec::default();
+        let ips = InnerManagerIP::default();
         InnerManager {
             queues,
             runners,
             ips,
-            currnet_index: 0,
+            idle: (0..workers).collect(),
             queue_length,
         }
     }
@@ -172,7 +174,7 @@ impl InnerManager {
         queue.push_back(job);
         let ip = Rc::new(ip);
         self.queues.insert(ip.clone(), queue);
-        self.ips.push(ip);
+        self.ips.push_back(ip);
         self.dispatch();
         Ok(())
     }
-- 
2.43.0


From 1ff6b56949b48606055421cafb925a203f9967d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 02/14] fix: send exactly one verdict per job

Work that was both insufficient and invalid produced three verdicts on a
channel of two, so the runner blocked until the submitter read one.
---
 src/pow.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pow.rs b/src/pow.rs
index bf4839d..ed51518 100644
--- a/src/pow.rs
+++ b/src/pow.rs
@@ -103,12 +103,14 @@ impl QueuedWork {
             if let Err(e) = self.tx.send(false) {
                 debug!("[ERROR] unable to send work result: {e}");
             }
+            return;
         }
 
         if !self.pow.is_valid_proof(&self.work, &self.string) {
             if let Err(e) = self.tx.send(false) {
                 debug!("[ERROR] unable to send work result: {e}");
             }
+            return;
         }
 
         if let Err(e) = self.tx.send(true) {
-- 
2.43.0


From 2d55b67b7985bb1625ac5a566e58e267f9201179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 03/14] fix: Redis cache must survive a caller that went away

The reply channel is closed when the caller cancelled; unwrapping the send
took the whole cache actor down.
---
 src/cache/redis.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cache/redis.rs b/src/cache/redis.rs
index c2c6fb8..568a2ec 100644
--- a/src/cache/redis.rs
+++ b/src/cache/redis.rs
@@ -57,7 +57,7 @@ impl Handler<CachePoW> for RedisCache {
             };
 
             let res = con.add_challenge(&msg.key, &payload).await;
-            tx.send(res).unwrap();
+            let _ = tx.send(res);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -86,7 +86,7 @@ impl Handler<RetrivePoW> for RedisCache {
                 }
             };
 
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -103,7 +103,7 @@ impl Handler<CacheResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.add_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -120,7 +120,7 @@ impl Handler<VerifyCaptchaResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.get_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
-- 
2.43.0


From 91fc10e918ee790aff95ba45ab298e2c1e2b0774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 04/14] fix: report a failing Redis token store instead of
 panicking

---
 src/redis/mcaptcha_redis.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 238891c..73de996 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -207,21 +207,16 @@ impl MCaptchaRedisConnection {
 
     /// Add PoW Token object to Redis
     pub async fn add_token(&self, msg: &CacheResult) -> CaptchaResult<()> {
-        use redis::RedisResult;
         // mcaptcha:token:captcha::token
         let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
-        let e: RedisResult<()> = self
-            .0
+        self.0
             .exec::<()>(redis::cmd("SET").arg(&[
                 &key,
                 &msg.key,
                 "EX",
                 msg.duration.to_string().as_str(),
             ]))
-            .await;
-        if let Err(e) = e {
-            panic!("{}", e);
-        }
+            .await?;
         Ok(())
     }
 
-- 
2.43.0


From 732e05806acb49fbb6601c0b3c48f5b87cdd4930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 05/14] fix: return an error when Redis is unreachable at
 start-up

Constructing the Redis backends panicked instead.
---
 src/redis/mcaptcha_redis.rs |  5 ++---
 src/redis/mod.rs            | 22 +++++++++++-----------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 73de996..c4f9377 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -69,7 +69,7 @@ impl MCaptchaRedis {
 
 impl MCaptchaRedisConnection {
     async fn is_module_loaded(&self) -> CaptchaResult<()> {
-        if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await.unwrap() {
+        if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await? {
             if let Some(Value::Array(s)) = s.first() {
                 match s.iter().find(|i| format!("{:?}", i).contains(MODULE_NAME)) {
                     Some(_) => (),
@@ -96,8 +96,7 @@ impl MCaptchaRedisConnection {
             if let Value::Array(mut val) = self
                 .0
                 .exec(redis::cmd("COMMAND").arg(&["INFO", cmd]))
-                .await
-                .unwrap()
+                .await?
             {
                 if let Some(Value::Nil) = val.pop() {
                     return Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(
diff --git a/src/redis/mod.rs b/src/redis/mod.rs
index 14727f0..53dac58 100644
--- a/src/redis/mod.rs
+++ b/src/redis/mod.rs
@@ -39,18 +39,18 @@ pub enum RedisConfig {
 impl RedisConfig {
     /// Create Redis connection
     pub async fn connect(&self) -> RedisClient {
-        match self {
+        self.try_connect().await.unwrap()
+    }
+
+    /// Create Redis connection, reports failure
+    pub async fn try_connect(&self) -> CaptchaResult<RedisClient> {
+        let client = match self {
             Self::Single(url) => {
-                let client = ConnectionManager::new(Client::open(url.as_str()).unwrap())
-                    .await
-                    .unwrap();
-                RedisClient::Single(client)
+                RedisClient::Single(ConnectionManager::new(Client::open(url.as_str())?).await?)
             }
-            Self::Cluster(nodes) => {
-                let cluster_client = ClusterClient::new(nodes.to_owned()).unwrap();
-                RedisClient::Cluster(cluster_client)
-            }
-        }
+            Self::Cluster(nodes) => RedisClient::Cluster(ClusterClient::new(nodes.to_owned())?),
+        };
+        Ok(client)
     }
 }
 
@@ -122,7 +122,7 @@ impl Redis {
     }
 
     async fn connect(redis: RedisConfig) -> CaptchaResult<(RedisClient, RedisConnection)> {
-        let redis = redis.connect().await;
+        let redis = redis.try_connect().await?;
         let client = match &redis {
             RedisClient::Single(c) => RedisConnection::Single(Rc::new(RefCell::new(c.clone()))),
             RedisClient::Cluster(c) => {
-- 
2.43.0


From e8619184aba3778eb0f54528c90b8de67f3ff7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 06/14] fix: malformed replies of the Redis module are errors,
 not panics

---
 src/redis/mcaptcha_redis.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index c4f9377..c0c4ad0 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -116,7 +116,8 @@ impl MCaptchaRedisConnection {
     /// Add visitor
     pub async fn add_visitor(&self, msg: AddVisitor) -> CaptchaResult<Option<AddVisitorResult>> {
         let res: String = self.0.exec(redis::cmd(ADD_VISITOR).arg(&[msg.0])).await?;
-        let res: AddVisitorResult = serde_json::from_str(&res).unwrap();
+        let res: AddVisitorResult =
+            serde_json::from_str(&res).map_err(|_| CaptchaError::MCaptchaRedisModuleError)?;
         Ok(Some(res))
     }
 
@@ -187,7 +188,7 @@ impl MCaptchaRedisConnection {
             .0
             .exec(redis::cmd(GET_CHALLENGE).arg(&[&msg.key, &msg.token]))
             .await?;
-        Ok(serde_json::from_str(&challege).unwrap())
+        serde_json::from_str(&challege).map_err(|_| CaptchaError::MCaptchaRedisModuleError)
     }
 
     /// Delete PoW Challenge object from Redis
-- 
2.43.0


From 539ccc63e831a7e97a8fdde9ced5662212e7ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 07/14] fix: keep the difficulty level while the load stays in
 its band

A visitor that did not exceed the current level's threshold loosened the
defense, so under a steady load between two thresholds the difficulty
oscillated with every visitor. Loosen up only when the load is back in the
previous level's band.
---
 src/defense.rs  | 7 +++++++
 src/mcaptcha.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/defense.rs b/src/defense.rs
index fd65df0..fbb3804 100644
--- a/src/defense.rs
+++ b/src/defense.rs
@@ -216,6 +216,13 @@ impl Defense {
         &self.levels[self.current_visitor_threshold]
     }
 
+    /// Get the level below the current one, if there is one
+    pub fn previous_level(&self) -> Option<&Level> {
+        self.current_visitor_threshold
+            .checked_sub(1)
+            .and_then(|l| self.levels.get(l))
+    }
+
     /// Get current level's  visitor threshold
     pub fn visitor_threshold(&self) -> u32 {
         self.levels[self.current_visitor_threshold].difficulty_factor
diff --git a/src/mcaptcha.rs b/src/mcaptcha.rs
index afff229..e65ba30 100644
--- a/src/mcaptcha.rs
+++ b/src/mcaptcha.rs
@@ -95,7 +95,13 @@ impl MCaptcha {
         let current_level = self.defense.current_level();
         if self.visitor_threshold > current_level.visitor_threshold {
             self.defense.tighten_up();
-        } else {
+        } else if self
+            .defense
+            .previous_level()
+            .map_or(false, |l| self.visitor_threshold <= l.visitor_threshold)
+        {
+            // only once the load is back in the previous level's band: loosening up
+            // while it still is in the current one makes the difficulty oscillate
             self.defense.loosen_up();
         }
     }
-- 
2.43.0


From 21ae92e9453e8d00e80c06f5d000aed8d704adfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 08/14] fix: restored visitors expire once, and restore is done
 when acknowledged

Visitors of a snapshot restored into a fresh master never left the count,
timers of the replaced state decremented the restored count on a live one,
and SetInternalData was acknowledged before any site was registered.
---
 src/master/embedded/counter.rs | 59 +++++++++++++++++++++++++---------
 src/master/embedded/master.rs  | 33 ++++++++++---------
 2 files changed, 60 insertions(+), 32 deletions(-)

diff --git a/src/master/embedded/counter.rs b/src/master/embedded/counter.rs
index f5a2ed3..d9f747b 100644
--- a/src/master/embedded/counter.rs
+++ b/src/master/embedded/counter.rs
@@ -84,6 +84,7 @@ use std::time::Duration;
 
 use actix::clock::sleep;
 use actix::dev::*;
+use actix::fut::ActorFutureExt;
 use serde::{Deserialize, Serialize};
 
 use crate::master::AddVisitorResult;
@@ -92,26 +93,59 @@ use crate::mcaptcha::MCaptcha;
 /// This struct represents the mCaptcha state and is used
 /// to configure leaky-bucket lifetime and manage defense
 #[derive(Clone, Serialize, Deserialize, Debug)]
-pub struct Counter(MCaptcha);
+#[serde(transparent)]
+pub struct Counter(
+    MCaptcha,
+    /// number of times the state was replaced: timers started before the latest
+    /// replacement are about visitors that aren't counted any more
+    #[serde(skip)]
+    u64,
+);
 
 impl From<MCaptcha> for Counter {
     fn from(m: MCaptcha) -> Counter {
-        Counter(m)
+        Counter(m, 0)
     }
 }
+
+impl Counter {
+    /// schedules the expiry of the visitors that came with the current state
+    fn expire_restored_visitors(&self, ctx: &mut Context<Self>) {
+        let count = self.0.get_visitors();
+        if count == 0 {
+            return;
+        }
+        let generation = self.1;
+        let wait_for = sleep(Duration::new(self.0.get_duration(), 0))
+            .into_actor(self)
+            .map(move |_, act: &mut Self, ctx| {
+                if act.1 == generation {
+                    act.handle(BulkDecrement(count), ctx);
+                }
+            });
+        ctx.spawn(wait_for);
+    }
+}
+
 impl Actor for Counter {
     type Context = Context<Self>;
+
+    fn started(&mut self, ctx: &mut Self::Context) {
+        self.expire_restored_visitors(ctx);
+    }
 }
 
 /// Message to decrement the visitor count
 #[derive(Message)]
 #[rtype(result = "()")]
-struct DeleteVisitor;
+struct DeleteVisitor(u64);
 
 impl Handler<DeleteVisitor> for Counter {
     type Result = ();
-    fn handle(&mut self, _msg: DeleteVisitor, _ctx: &mut Self::Context) -> Self::Result {
-        self.0.decrement_visitor_by(1);
+    fn handle(&mut self, msg: DeleteVisitor, _ctx: &mut Self::Context) -> Self::Result {
+        if msg.0 == self.1 {
+            self.0.decrement_visitor_by(1);
+        }
     }
 }
 
@@ -126,13 +160,14 @@ impl Handler<AddVisitor> for Counter {
 
     fn handle(&mut self, _: AddVisitor, ctx: &mut Self::Context) -> Self::Result {
         let addr = ctx.address();
+        let generation = self.1;
         //use actix::clock::delay_for;
 
         let duration: Duration = Duration::new(self.0.get_duration(), 0);
         let wait_for = async move {
             sleep(duration).await;
             //delay_for(duration).await;
-            addr.send(DeleteVisitor).await.unwrap();
+            addr.send(DeleteVisitor(generation)).await.unwrap();
         }
         .into_actor(self);
         ctx.spawn(wait_for);
@@ -202,17 +237,9 @@ impl Handler<SetInternalData> for Counter {
     type Result = MessageResult<SetInternalData>;
 
     fn handle(&mut self, d: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
-        let addr = ctx.address();
         self.0 = d.0;
-        let duration: Duration = Duration::new(self.0.get_duration(), 0);
-        let count = self.0.get_visitors();
-        let wait_for = async move {
-            sleep(duration).await;
-            //delay_for(duration).await;
-            addr.send(BulkDecrement(count)).await.unwrap();
-        }
-        .into_actor(self);
-        ctx.spawn(wait_for);
+        self.1 += 1;
+        self.expire_restored_visitors(ctx);
 
         MessageResult(())
     }
diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 1a34183..fa99c5d 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -266,27 +266,28 @@ impl Handler<SetInternalData> for Master {
 
     fn handle(&mut self, mut m: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
         let (tx, rx) = channel();
+        let mut live = Vec::with_capacity(m.mcaptcha.len());
         for (name, mcaptcha) in m.mcaptcha.drain() {
-            let addr = self.get_site(&name);
-            let master = ctx.address();
-            let fut = async move {
-                match addr {
-                    None => {
-                        master.send(AddSite { id: name, mcaptcha }).await.unwrap();
-                    }
-                    Some(addr) => {
-                        let _ = addr.send(super::counter::SetInternalData(mcaptcha)).await;
-                        // best effort basis
-                        //let err: CaptchaError = e.into();
-                        //let _ = tx.send(Err(err));
-                    }
+            match self.get_site(&name) {
+                None => {
+                    let counter: Counter = mcaptcha.into();
+                    self.add_site(counter.start(), name);
                 }
+                Some(addr) => live.push(addr.send(super::counter::SetInternalData(mcaptcha))),
             }
-            .into_actor(self);
-            ctx.spawn(fut);
         }
 
-        let _ = tx.send(Ok(()));
+        let fut = async move {
+            for restored in live {
+                let _ = restored.await;
+                // best effort basis
+                //let err: CaptchaError = e.into();
+                //let _ = tx.send(Err(err));
+            }
+            let _ = tx.send(Ok(()));
+        }
+        .into_actor(self);
+        ctx.spawn(fut);
         MessageResult(rx)
     }
 }
-- 
2.43.0


From 5590b4bd210fb921d83621e36e521bbba6027290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 09/14] fix: clean up stops and removes exactly the counters
 that are idle

Clean up asked for the visitor count and stopped the counter in separate
messages and then removed whatever site had the name: visits in between were
lost, sites registered or renamed under the name were removed, and a site
removed meanwhile made clean up panic.
---
 src/master/embedded/counter.rs | 18 +++++++++++
 src/master/embedded/master.rs  | 56 ++++++++++++++++++++++++++++------
 2 files changed, 65 insertions(+), 9 deletions(-)

diff --git a/src/master/embedded/counter.rs b/src/master/embedded/counter.rs
index d9f747b..536635e 100644
--- a/src/master/embedded/counter.rs
+++ b/src/master/embedded/counter.rs
@@ -203,6 +203,24 @@ impl Handler<Stop> for Counter {
     }
 }
 
+/// Message to stop [Counter] unless it has visitors.
+/// Returns true if the counter is stopped
+#[derive(Message)]
+#[rtype(result = "bool")]
+pub struct StopIfIdle;
+
+impl Handler<StopIfIdle> for Counter {
+    type Result = MessageResult<StopIfIdle>;
+
+    fn handle(&mut self, _: StopIfIdle, ctx: &mut Self::Context) -> Self::Result {
+        let idle = self.0.get_visitors() == 0;
+        if idle {
+            ctx.stop();
+        }
+        MessageResult(idle)
+    }
+}
+
 /// Gets internal Captcha data
 #[derive(Message)]
 #[rtype(result = "MCaptcha")]
diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index fa99c5d..def7bc9 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -22,6 +22,7 @@ use std::time::Duration;
 use actix::clock::sleep;
 //use actix::clock::delay_for;
 use actix::dev::*;
+use actix::fut::ActorFutureExt;
 use log::info;
 use tokio::sync::oneshot::channel;
 
@@ -32,7 +33,7 @@ use crate::master::messages::{
 };
 use crate::master::Master as MasterTrait;
 
-use super::counter::{GetCurrentVisitorCount, Stop};
+use super::counter::{GetCurrentVisitorCount, Stop, StopIfIdle};
 
 /// This Actor manages the [Counter] actors.
 /// A service can have several [Counter] actors with
@@ -109,8 +110,10 @@ impl Handler<AddVisitor> for Master {
                 let _ = tx.send(Ok(None));
             }
             Some(addr) => {
+                // sent right away so that it reaches the counter ahead of a clean up
+                let visit = addr.send(super::counter::AddVisitor);
                 let fut = async move {
-                    match addr.send(super::counter::AddVisitor).await {
+                    match visit.await {
                         Ok(val) => {
                             let _ = tx.send(Ok(Some(val)));
                         }
@@ -161,6 +164,41 @@ impl Handler<GetSite> for Master {
 #[rtype(result = "()")]
 pub struct CleanUp;
 
+/// Message to remove a [Counter] actor that has no visitors
+#[derive(Message)]
+#[rtype(result = "()")]
+struct Collect(Addr<Counter>);
+
+impl Handler<Collect> for Master {
+    type Result = ();
+
+    fn handle(&mut self, m: Collect, ctx: &mut Self::Context) -> Self::Result {
+        let counter = m.0;
+        // it might have been removed, replaced or renamed since the clean up started
+        if !self
+            .sites
+            .values()
+            .any(|(new, addr)| *addr == counter && new.is_some())
+        {
+            return;
+        }
+
+        // the counter decides, as visits might be on their way to it. Nothing else is
+        // handled until it did, so a stopped counter is never handed out
+        let stop = counter
+            .send(StopIfIdle)
+            .into_actor(self)
+            .map(move |stopped, act, _| {
+                if let Ok(false) = stopped {
+                    return;
+                }
+                act.sites.retain(|_, (_, addr)| *addr != counter);
+                println!("cleaned up");
+            });
+        ctx.wait(stop);
+    }
+}
+
 impl Handler<CleanUp> for Master {
     type Result = ();
 
@@ -170,13 +208,13 @@ impl Handler<CleanUp> for Master {
         let master = ctx.address();
         info!("init master actor cleanup up");
         let task = async move {
-            for (id, (new, addr)) in sites.iter() {
-                let visitor_count = addr.send(GetCurrentVisitorCount).await.unwrap();
-                println!("{}", visitor_count);
-                if visitor_count == 0 && new.is_some() {
-                    addr.send(Stop).await.unwrap();
-                    master.send(RemoveCaptcha(id.to_owned())).await.unwrap();
-                    println!("cleaned up");
+            for (new, addr) in sites.values() {
+                // a counter that can't be reached has been removed or replaced meanwhile
+                if let Ok(visitor_count) = addr.send(GetCurrentVisitorCount).await {
+                    println!("{}", visitor_count);
+                    if visitor_count == 0 && new.is_some() {
+                        let _ = master.send(Collect(addr.to_owned())).await;
+                    }
                 }
             }
 
-- 
2.43.0


From 61d9f2d73b66186b724492389a33463446715349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 10/14] fix: snapshots of the Redis master are an error, not a
 panic

---
 src/master/redis/master.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/master/redis/master.rs b/src/master/redis/master.rs
index ca28950..cbfaf1e 100644
--- a/src/master/redis/master.rs
+++ b/src/master/redis/master.rs
@@ -112,19 +112,32 @@ impl Handler<RemoveCaptcha> for Master {
     }
 }
 
+/// The state lives in Redis, the module has no commands to read or replace it as a whole
+fn snapshots_unsupported() -> CaptchaError {
+    redis::RedisError::from((
+        redis::ErrorKind::Client,
+        "internal data is not available with the Redis master",
+    ))
+    .into()
+}
+
 impl Handler<GetInternalData> for Master {
     type Result = MessageResult<GetInternalData>;
 
-    fn handle(&mut self, m: GetInternalData, ctx: &mut Self::Context) -> Self::Result {
-        todo!()
+    fn handle(&mut self, _m: GetInternalData, _ctx: &mut Self::Context) -> Self::Result {
+        let (tx, rx) = oneshot::channel();
+        let _ = tx.send(Err(snapshots_unsupported()));
+        MessageResult(rx)
     }
 }
 
 impl Handler<SetInternalData> for Master {
     type Result = MessageResult<SetInternalData>;
 
-    fn handle(&mut self, m: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
-        todo!()
+    fn handle(&mut self, _m: SetInternalData, _ctx: &mut Self::Context) -> Self::Result {
+        let (tx, rx) = oneshot::channel();
+        let _ = tx.send(Err(snapshots_unsupported()));
+        MessageResult(rx)
     }
 }
 
-- 
2.43.0


From e79c1b49289ccf35f79e8e4c26ea564c678c754f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 11/14] fix: a token with a colon must not reach into another
 site's tokens

With the Redis cache, token T of site "a:b" validated as token "b:T" of site "a".
---
 src/redis/mcaptcha_redis.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index c0c4ad0..20627dc 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -47,6 +47,12 @@ const DELETE_CHALLENGE: &str = "MCAPTCHA_CACHE.DELETE_CHALLENGE";
 
 const MODULE_NAME: &str = "mcaptcha_cache";
 
+/// Tokens contain no colons: one that does would reach into the tokens of another
+/// captcha, as the colon separates the captcha's name and the token in Redis' keys
+fn is_token(token: &str) -> bool {
+    !token.contains(':')
+}
+
 impl MCaptchaRedis {
     /// Get new [MCaptchaRedis]. Use this when executing commands that are
     /// only supported by mCaptcha Redis module. Internally, when object
@@ -222,6 +228,9 @@ impl MCaptchaRedisConnection {
 
     /// Get PoW Token object to Redis
     pub async fn get_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<bool> {
+        if !is_token(&msg.token) {
+            return Ok(false);
+        }
         //use redis::RedisResult;
         // mcaptcha:token:captcha::token
         let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
@@ -235,6 +244,9 @@ impl MCaptchaRedisConnection {
 
     /// Delete PoW Token object from Redis
     pub async fn delete_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<()> {
+        if !is_token(&msg.token) {
+            return Ok(());
+        }
         //use redis::RedisResult;
         // mcaptcha:token:captcha::token
         let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
-- 
2.43.0


From f3cf64e75bb6ce8e994fcf20586facbbce325c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 12/14] fix: find the mCaptcha module among other Redis modules

---
 src/redis/mcaptcha_redis.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 20627dc..c1a5108 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -76,12 +76,8 @@ impl MCaptchaRedis {
 impl MCaptchaRedisConnection {
     async fn is_module_loaded(&self) -> CaptchaResult<()> {
         if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await? {
-            if let Some(Value::Array(s)) = s.first() {
-                match s.iter().find(|i| format!("{:?}", i).contains(MODULE_NAME)) {
-                    Some(_) => (),
-                    None => return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded),
-                }
-            } else {
+            // other modules might be loaded too
+            if !s.iter().any(|i| format!("{:?}", i).contains(MODULE_NAME)) {
                 return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded);
             }
         }
-- 
2.43.0


From bafe719257db2795fccff9207ebff49263ea38da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:44 +0000
Subject: [PATCH 13/14] fix: limit how long a Redis cluster may block its
 callers

---
 src/redis/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/redis/mod.rs b/src/redis/mod.rs
index 53dac58..0c9cb98 100644
--- a/src/redis/mod.rs
+++ b/src/redis/mod.rs
@@ -18,6 +18,7 @@
 //! Redis Client/Connection manager that can handle both single and clustered Redis Instances
 use std::cell::RefCell;
 use std::rc::Rc;
+use std::time::Duration;
 
 use redis::cluster::ClusterClient;
 use redis::Client;
@@ -48,7 +49,17 @@ impl RedisConfig {
             Self::Single(url) => {
                 RedisClient::Single(ConnectionManager::new(Client::open(url.as_str())?).await?)
             }
-            Self::Cluster(nodes) => RedisClient::Cluster(ClusterClient::new(nodes.to_owned())?),
+            // cluster connections block their thread: without these limits, a node that
+            // doesn't respond does so forever, and one that isn't ready for many minutes
+            Self::Cluster(nodes) => RedisClient::Cluster(
+                ClusterClient::builder(nodes.to_owned())
+                    .connection_timeout(Duration::from_secs(1))
+                    .response_timeout(Duration::from_millis(500))
+                    .retries(3)
+                    .min_retry_wait(50)
+                    .max_retry_wait(500)
+                    .build()?,
+            ),
         };
         Ok(client)
     }
-- 
2.43.0


From 8867f4cb73052346077daa9b2bdd7e68f71558a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:26 +0000
Subject: [PATCH 14/14] fix: wait for the verdict without blocking the executor

verify_pow polled the verdict channel in a loop, so that nothing else on its
executor ran until the proof was checked, and submissions made from one
executor were checked one at a time whatever the number of workers.
---
 src/pow.rs    | 10 +++++-----
 src/system.rs | 20 ++++----------------
 2 files changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/pow.rs b/src/pow.rs
index ed51518..e2060a6 100644
--- a/src/pow.rs
+++ b/src/pow.rs
@@ -18,12 +18,12 @@
 //! PoW datatypes used in client-server interaction
 use std::sync::Arc;
 
-use crossbeam_channel::{self, Receiver, Sender};
 use log::debug;
 use mcaptcha_pow_sha256::Config;
 pub use mcaptcha_pow_sha256::ConfigBuilder;
 use mcaptcha_pow_sha256::PoW;
 use serde::{Deserialize, Serialize};
+use tokio::sync::mpsc::{self, Receiver, Sender};
 
 use crate::queue::Runnable;
 
@@ -83,7 +83,7 @@ impl QueuedWork {
         string: String,
         difficulty_factor: u32,
     ) -> (Self, Receiver<bool>) {
-        let (tx, rx) = crossbeam_channel::bounded(2);
+        let (tx, rx) = mpsc::channel(2);
         (
             Self {
                 tx,
@@ -100,20 +100,20 @@ impl QueuedWork {
             .pow
             .is_sufficient_difficulty(&self.work, self.difficulty_factor)
         {
-            if let Err(e) = self.tx.send(false) {
+            if let Err(e) = self.tx.try_send(false) {
                 debug!("[ERROR] unable to send work result: {e}");
             }
             return;
         }
 
         if !self.pow.is_valid_proof(&self.work, &self.string) {
-            if let Err(e) = self.tx.send(false) {
+            if let Err(e) = self.tx.try_send(false) {
                 debug!("[ERROR] unable to send work result: {e}");
             }
             return;
         }
 
-        if let Err(e) = self.tx.send(true) {
+        if let Err(e) = self.tx.try_send(true) {
             debug!("[ERROR] unable to send work result: {e}");
         }
     }
diff --git a/src/system.rs b/src/system.rs
index c5c27e9..90323cc 100644
--- a/src/system.rs
+++ b/src/system.rs
@@ -127,8 +127,6 @@ where
 
     /// utility function to verify [Work]
     pub async fn verify_pow(&self, work: Work, ip: String) -> CaptchaResult<(String, u32)> {
-        use crossbeam_channel::TryRecvError;
-
         let string = work.string.clone();
         let msg = VerifyCaptchaResult {
             token: string.clone(),
@@ -152,26 +150,16 @@ where
 
         let res_difficulty_factor = cached_config.difficulty_factor;
 
-        let (queued_work, rx) = QueuedWork::new(
+        let (queued_work, mut rx) = QueuedWork::new(
             self.pow.clone(),
             pow,
             string,
             cached_config.difficulty_factor,
         );
         self.runners.add(ip, Box::new(queued_work)).await?;
-        loop {
-            match rx.try_recv() {
-                Err(TryRecvError::Empty) => continue,
-                Err(TryRecvError::Disconnected) => {
-                    return Err(CaptchaError::InsuffiencientDifficulty);
-                }
-                Ok(t) => {
-                    if !t {
-                        return Err(CaptchaError::InsuffiencientDifficulty);
-                    }
-                    break;
-                }
-            };
+        match rx.recv().await {
+            Some(true) => {}
+            _ => return Err(CaptchaError::InsuffiencientDifficulty),
         }
 
         //        if !self
-- 
2.43.0

