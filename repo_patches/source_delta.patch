From 6cc91980dd6750659d8806c172e83c02662d19f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 01/19] fix: firewall for HTTP content decides unlisted clients
 like the proxy firewall

---
 guard/firewall.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/guard/firewall.go b/guard/firewall.go
index 0aacede..dba8473 100644
--- a/guard/firewall.go
+++ b/guard/firewall.go
@@ -82,10 +82,11 @@ func (f *Firewall) BlockHTTP(handler http.HandlerFunc) http.HandlerFunc {
 		}
 
 		if f.Blacklisting {
-			f.ErrorHandler(w, r, 403)
+			handler.ServeHTTP(w, r)
 			return
 		}
-		handler.ServeHTTP(w, r)
+
+		f.ErrorHandler(w, r, 403)
 		return
 	}
 }
-- 
2.43.0


From 2fe73b675c180fdd9eefe59bade30e45c726d12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 02/19] fix: basic authentication refuses user names that are
 not registered

---
 guard/basicauth.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/guard/basicauth.go b/guard/basicauth.go
index 7ff36ba..cea2c47 100644
--- a/guard/basicauth.go
+++ b/guard/basicauth.go
@@ -126,11 +126,12 @@ func (b *BasicAuth) simpleBasicAuthFunc(user, pass string, r *http.Request) bool
 	// Equalize lengths of supplied and required credentials by hashing them
 	givenUser := sha256.Sum256([]byte(user))
 	givenPass := sha256.Sum256([]byte(pass))
-	requiredUser := sha256.Sum256([]byte(b.Users[user].User))
-	requiredPass := sha256.Sum256([]byte(b.Users[user].Password))
+	required, registered := b.Users[user]
+	requiredUser := sha256.Sum256([]byte(required.User))
+	requiredPass := sha256.Sum256([]byte(required.Password))
 
 	// Compare the supplied credentials to those set in our options
-	if subtle.ConstantTimeCompare(givenUser[:], requiredUser[:]) == 1 &&
+	if registered && subtle.ConstantTimeCompare(givenUser[:], requiredUser[:]) == 1 &&
 		subtle.ConstantTimeCompare(givenPass[:], requiredPass[:]) == 1 {
 		return true
 	}
-- 
2.43.0


From 3983cc9f961848c63989f4069e2ffe8bcd59b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:32 +0000
Subject: [PATCH 03/19] fix: unauthenticated requests get a 401 response and
 handlers share no unsynchronised state

---
 guard/basicauth.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/guard/basicauth.go b/guard/basicauth.go
index cea2c47..789f69a 100644
--- a/guard/basicauth.go
+++ b/guard/basicauth.go
@@ -48,17 +48,18 @@ type AuthUser struct {
 
 // Authenticate is a middleware function that adds HTTP BasicAuth to a http handler
 func (b BasicAuth) Authenticate(handler http.HandlerFunc) http.HandlerFunc {
-	return func(w http.ResponseWriter, r *http.Request) {
 
-		// Check if we have a user-provided error handler, else set a default
-		if b.UnauthorizedHandler == nil {
-			b.UnauthorizedHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, code int) {
-				switch code {
-				case 403:
-					http.Error(w, "Forbidden", 403)
-				}
-			})
-		}
+	// Check if we have a user-provided error handler, else set a default
+	if b.UnauthorizedHandler == nil {
+		b.UnauthorizedHandler = router.ErrorHandler(func(w http.ResponseWriter, r *http.Request, code int) {
+			switch code {
+			case 401:
+				http.Error(w, "Unauthorized", 401)
+			}
+		})
+	}
+
+	return func(w http.ResponseWriter, r *http.Request) {
 
 		// Check that the provided details match
 		if !b.authenticate(r) {
@@ -113,7 +114,7 @@ func (b *BasicAuth) authenticate(r *http.Request) bool {
 
 	// Default to Simple mode if no AuthFunc is defined.
 	if b.AuthFunc == nil {
-		b.AuthFunc = b.simpleBasicAuthFunc
+		return b.simpleBasicAuthFunc(givenUser, givenPass, r)
 	}
 
 	return b.AuthFunc(givenUser, givenPass, r)
-- 
2.43.0


From abc8953b2393f4f7cd739e461268ff0b0b2570b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 04/19] fix: cache Get lets the newest entry of a key decide

The scan started at the cursor, which is the oldest entry once the ring has
wrapped, so outdated values were returned; an expired neighbour ended the scan
early, and expired entries beyond the first eight were returned. The clock and
the value are now read while the shard is locked.
---
 cache/get.go | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/cache/get.go b/cache/get.go
index 091760e..0e9dcb1 100644
--- a/cache/get.go
+++ b/cache/get.go
@@ -29,9 +29,6 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	keyHash := xxhash.Sum64([]byte(key))
 	id := keyHash & (defaultShards - 1)
 
-	// Get current time in nano seconds
-	now := uint64(time.Now().UnixNano())
-
 	// We make sure the shard exists, if it doesn't the key isn't stored
 	if c.shards[id] == nil {
 		return false, nil
@@ -40,20 +37,17 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
 
-	rangeEnd := c.shards[id].cursor - defaultItems - 1
-	var itemsParsed int
+	// Get current time in nano seconds
+	now := uint64(time.Now().UnixNano())
+
+	// We range over the ring queue, from the newest entry to the oldest entry
+	for i := 1; i <= defaultItems; i++ {
 
-	// We range over the ring queue
-	for i := c.shards[id].cursor; i >= rangeEnd; i-- {
-		itemsParsed++
-		itemID := i
+		itemID := c.shards[id].cursor - i
 
 		if itemID < 0 {
 			itemID = itemID + defaultItems
 		}
-		if itemID >= defaultItems {
-			itemID = defaultItems - 1
-		}
 
 		key := c.shards[id].items[itemID].key
 
@@ -62,20 +56,23 @@ func (c *SpearCache) Get(key string, maxAge uint64) (bool, interface{}) {
 			continue
 		}
 
-		if now-c.shards[id].items[itemID].modTime > maxAge && itemsParsed < defaultNoClutter {
-			break
-		}
-
-		// We test if the item is within the maxAge range. If it is not we break.
-		// If it is we check if the key matches the key we search.
+		// The first match is the newest entry of the key. Older entries of the same key are
+		// outdated, so this is the entry that decides.
 		if key == keyHash {
 
+			// We test if the item is within the maxAge range.
+			if now-c.shards[id].items[itemID].modTime > maxAge {
+				break
+			}
+
+			value := c.shards[id].items[itemID].value
+
 			// appendKey
-			c.appendKey(key, id, c.shards[id].items[itemID].value)
+			c.appendKey(key, id, value)
 
 			// Unlock and return
 			c.shards[id].lock.Unlock()
-			return true, c.shards[id].items[itemID].value
+			return true, value
 		}
 	}
 
-- 
2.43.0


From 424b6d676c9d1cb8b62003a553251a09facc2074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 05/19] fix: cache Find returns the newest entry of a key and
 its true age

The scan started at the oldest entry of a wrapped ring, and value and age were
read after the shard was unlocked, when they could belong to another entry.
---
 cache/find.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/cache/find.go b/cache/find.go
index febe2e6..c59e6eb 100644
--- a/cache/find.go
+++ b/cache/find.go
@@ -30,9 +30,6 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	keyHash := xxhash.Sum64([]byte(key))
 	id := keyHash & (defaultShards - 1)
 
-	// Get current time in nano seconds
-	now := uint64(time.Now().UnixNano())
-
 	// We make sure the shard exists, if it doesn't the key isn't stored
 	if c.shards[id] == nil {
 		return false, nil, 0
@@ -41,19 +38,17 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 	// Lock the shard for concurrency safetey
 	c.shards[id].lock.Lock()
 
-	rangeEnd := c.shards[id].cursor - defaultItems - 1
+	// Get current time in nano seconds
+	now := uint64(time.Now().UnixNano())
 
-	// We range over the ring queue
-	for i := c.shards[id].cursor; i >= rangeEnd; i-- {
+	// We range over the ring queue, from the newest entry to the oldest entry
+	for i := 1; i <= defaultItems; i++ {
 
-		itemID := i
+		itemID := c.shards[id].cursor - i
 
 		if itemID < 0 {
 			itemID = itemID + defaultItems
 		}
-		if itemID >= defaultItems {
-			itemID = defaultItems - 1
-		}
 
 		key := c.shards[id].items[itemID].key
 
@@ -62,16 +57,18 @@ func (c *SpearCache) Find(key string) (bool, interface{}, uint64) {
 			continue
 		}
 
-		// We test if the item is within the maxAge range. If it is not we break.
-		// If it is we check if the key matches the key we search.
+		// The first match is the newest entry of the key
 		if key == keyHash {
 
+			value := c.shards[id].items[itemID].value
+			age := now - c.shards[id].items[itemID].modTime
+
 			// appendKey
-			c.appendKey(key, id, c.shards[id].items[itemID].value)
+			c.appendKey(key, id, value)
 
 			// Unlock and return
 			c.shards[id].lock.Unlock()
-			return true, c.shards[id].items[itemID].value, now - c.shards[id].items[itemID].modTime
+			return true, value, age
 		}
 	}
 
-- 
2.43.0


From f06a1131f86446b9fa849e58e3181cb6c21466da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 06/19] fix: allocate cache shards up front

Set created missing shards without synchronisation: two concurrent calls could
each install a shard and lose the other one's entry, and readers raced with it.
---
 cache/cache.go | 9 +++++++--
 cache/set.go   | 5 -----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 705ad49..09374f2 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -35,7 +35,12 @@ type SpearCache struct {
 	shards [defaultShards]*shard
 }
 
-// NewCache returns an empty SpearCache
+// NewCache returns an empty SpearCache. All shards are allocated here: the shard table is
+// never written afterwards, so it can be read without a lock.
 func NewCache() *SpearCache {
-	return &SpearCache{}
+	c := &SpearCache{}
+	for i := range c.shards {
+		c.shards[i] = newShard()
+	}
+	return c
 }
diff --git a/cache/set.go b/cache/set.go
index ef527de..2cc2856 100644
--- a/cache/set.go
+++ b/cache/set.go
@@ -28,11 +28,6 @@ func (c *SpearCache) Set(key string, value interface{}) {
 	keyHash := xxhash.Sum64([]byte(key))
 	id := keyHash & (defaultShards - 1)
 
-	// We make sure the shard exists, if it doesn't we create one
-	if c.shards[id] == nil {
-		c.shards[id] = newShard()
-	}
-
 	// Lock the shard for concurrency safety. We don't use defer to unlock the shard (on purpose)
 	c.shards[id].lock.Lock()
 
-- 
2.43.0


From c0c288e6ec2cbcb769e8eb5eba5733432769bd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 07/19] fix: limiter looks up and retains a client's bucket
 atomically

Concurrent first requests of a client were each given a fresh bucket, so the
configured burst could be exceeded.
---
 guard/limiter.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/guard/limiter.go b/guard/limiter.go
index 9fd679b..412d12a 100644
--- a/guard/limiter.go
+++ b/guard/limiter.go
@@ -16,6 +16,7 @@ package guard
 
 import (
 	"net/http"
+	"sync"
 
 	"github.com/redmaner/MaguroHTTP/cache"
 	"github.com/redmaner/MaguroHTTP/router"
@@ -24,6 +25,7 @@ import (
 
 // Limiter is a type containing a MaguroHTTP Guard limiter
 type Limiter struct {
+	mu           sync.Mutex // held while the bucket of a client is looked up and retained
 	cache        *cache.SpearCache
 	RatePerSec   rate.Limit
 	RateBurst    int
@@ -58,18 +60,18 @@ func (l *Limiter) LimitHTTP(h http.HandlerFunc) http.HandlerFunc {
 		if !l.FilterOnIP {
 			remoteAddr = remoteAddr + r.Header.Get("User-Agent")
 		}
-		ok, lmt := l.cache.Get(remoteAddr, 900000000000)
 
-		switch {
-		case ok:
-			if as, ok := lmt.(*rate.Limiter); ok {
-				limit = as
-			}
-		default:
+		// The bucket must be looked up and retained at once, otherwise concurrent
+		// requests of a client would each be given a bucket of their own.
+		l.mu.Lock()
+		if ok, lmt := l.cache.Get(remoteAddr, 900000000000); ok {
+			limit, _ = lmt.(*rate.Limiter)
+		}
+		if limit == nil {
 			limit = rate.NewLimiter(l.RatePerSec, l.RateBurst)
 		}
-
 		l.cache.Set(remoteAddr, limit)
+		l.mu.Unlock()
 
 		if !limit.Allow() {
 			l.ErrorHandler(w, r, 429)
-- 
2.43.0


From 2bbb7fe83999e567b2fcd366d302daf3a52e267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 08/19] fix: the metrics page releases the metrics lock when
 writing it fails

---
 tuna/metrics.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 7ba3bbd..f90fb83 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -62,7 +62,9 @@ func (md *metricsData) concat(e int, p string) {
 
 // Function to display metrics data
 func (md *metricsData) display(o io.Writer) error {
+
 	md.mu.Lock()
+	defer md.mu.Unlock()
 
 	if _, err := io.WriteString(o, fmt.Sprintf("<h1>MaguroHTTP metrics</h1><br><b>Total requests:</b> %d<br>", md.TotalRequests)); err != nil {
 		return err
@@ -80,7 +82,6 @@ func (md *metricsData) display(o io.Writer) error {
 			return err
 		}
 	}
-	md.mu.Unlock()
 	return nil
 }
 
-- 
2.43.0


From 88389f5c232429f2bda9dd794bbab3a6354a9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 09/19] fix: escape request paths on the metrics page and file
 names in the download list

---
 tuna/handledownload.go | 3 ++-
 tuna/metrics.go        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index a075b39..92a577b 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -88,7 +88,8 @@ func (s *Server) handleDownload() http.HandlerFunc {
 			s.WriteString(buf, fmt.Sprintln(`<table border="0" cellpadding="0" cellspacing="0">`))
 			s.WriteString(buf, fmt.Sprintln(`<tr><td height="auto" width="200px"><span><b>Name</b></span><td height="auto" width="120px"><span><b>Size</b></span></td><td height="auto" width="auto"><span><b>Modification date</b></span></td></tr>`))
 			for _, v := range dlurls {
-				s.WriteString(buf, fmt.Sprint(`<tr><td height="auto" width="200px"><span><a href="/`, v.Name, `">`, v.Name, `</a><br></span><td height="auto" width="120px"><span >`, v.Size, `</b></span></td><td height="auto" width="auto"><span>`, v.ModTime, `</b></span></td></tr>`))
+				name := template.HTMLEscapeString(v.Name)
+				s.WriteString(buf, fmt.Sprint(`<tr><td height="auto" width="200px"><span><a href="/`, name, `">`, name, `</a><br></span><td height="auto" width="120px"><span >`, v.Size, `</b></span></td><td height="auto" width="auto"><span>`, v.ModTime, `</b></span></td></tr>`))
 			}
 			s.WriteString(buf, fmt.Sprintln("</table><br>"))
 
diff --git a/tuna/metrics.go b/tuna/metrics.go
index f90fb83..76e0ecd 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -17,6 +17,7 @@ package tuna
 import (
 	"encoding/json"
 	"fmt"
+	"html/template"
 	"io"
 	"net/http"
 	"os"
@@ -74,7 +75,7 @@ func (md *metricsData) display(o io.Writer) error {
 			return err
 		}
 		for p, a := range v {
-			if _, err := io.WriteString(o, fmt.Sprintf("<li>Amount: %d - Path: %s</li>", a, p)); err != nil {
+			if _, err := io.WriteString(o, fmt.Sprintf("<li>Amount: %d - Path: %s</li>", a, template.HTMLEscapeString(p))); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From c02a09af747014e2ce54bdc47d067e2f5bc3e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 10/19] fix: metrics are accessed under their lock and survive
 stored metrics without tables

---
 tuna/metrics.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 76e0ecd..b012e8e 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -43,9 +43,14 @@ type metricsData struct {
 // * The total amount of requests
 // * The responses for requests based on HTTP status codes
 func (md *metricsData) concat(e int, p string) {
+	md.mu.Lock()
+	defer md.mu.Unlock()
 	if md.enabled {
-		md.mu.Lock()
-		if _, ok := md.Paths[e]; ok {
+		// metrics loaded from a file may lack tables
+		if md.Paths == nil {
+			md.Paths = make(map[int]map[string]int)
+		}
+		if md.Paths[e] != nil {
 			if _, ok := md.Paths[e][p]; ok {
 				md.Paths[e][p]++
 			} else {
@@ -57,7 +62,6 @@ func (md *metricsData) concat(e int, p string) {
 			md.Paths[e][p] = 1
 		}
 		md.TotalRequests++
-		md.mu.Unlock()
 	}
 }
 
@@ -105,18 +109,18 @@ func (s *Server) metricsDaemon() {
 
 	// Initially load metrics if they are present
 	if !s.Cfg.Core.Metrics.Enabled || !s.Cfg.Core.TLS.Enabled {
-		s.metrics = metricsData{
-			enabled: false,
-		}
+		s.metrics.mu.Lock()
+		s.metrics.enabled = false
+		s.metrics.mu.Unlock()
 		return
 	}
 
 	// We check if the file exists. If it doesn't we create an empty metricsData
 	if _, err := os.Stat(s.Cfg.Core.Metrics.Out); err != nil {
-		s.metrics = metricsData{
-			enabled: s.Cfg.Core.Metrics.Enabled,
-			Paths:   make(map[int]map[string]int),
-		}
+		s.metrics.mu.Lock()
+		s.metrics.enabled = s.Cfg.Core.Metrics.Enabled
+		s.metrics.Paths = make(map[int]map[string]int)
+		s.metrics.mu.Unlock()
 		return
 	}
 
@@ -137,9 +141,11 @@ func (s *Server) metricsDaemon() {
 		os.Exit(1)
 	}
 
+	s.metrics.mu.Lock()
 	s.metrics.TotalRequests = md.TotalRequests
 	s.metrics.Paths = md.Paths
 	s.metrics.enabled = s.Cfg.Core.Metrics.Enabled
+	s.metrics.mu.Unlock()
 
 	err = file.Close()
 	s.Log(debug.LogError, err)
-- 
2.43.0


From 5f2bebe9a225f8d76b1814d0ec9f16d070dfbc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 11/19] fix: a request target without leading slash cannot
 change the upstream host

---
 tuna/handleproxy.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index f33bcf8..37a0d0f 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -19,6 +19,8 @@ import (
 	"io"
 	"io/ioutil"
 	"net/http"
+	"net/url"
+	"strings"
 
 	"github.com/redmaner/MaguroHTTP/debug"
 	"github.com/redmaner/MaguroHTTP/router"
@@ -53,9 +55,16 @@ func (s *Server) handleProxy() http.HandlerFunc {
 				return
 			}
 
+			// Only the path and query of the request target are forwarded. A target in another form
+			// would otherwise be able to change the host the request is sent to.
+			target := r.RequestURI
+			if !strings.HasPrefix(target, "/") {
+				target = (&url.URL{Path: r.URL.Path, RawPath: r.URL.RawPath, RawQuery: r.URL.RawQuery}).RequestURI()
+			}
+
 			// We compose a new request with the desired proxy host, the original request method
 			// and original request body.
-			req, err := http.NewRequest(r.Method, val+r.RequestURI, bytes.NewBuffer(bodyData))
+			req, err := http.NewRequest(r.Method, val+target, bytes.NewBuffer(bodyData))
 			if err != nil {
 				s.Log(debug.LogError, err)
 				s.HandleError(w, r, 502)
-- 
2.43.0


From dab421aa5ff27438097c8778e68af94ab2f744eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 12/19] fix: a proxy request no rule applies to is answered
 with 502

---
 tuna/handleproxy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index 37a0d0f..c278fa1 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -103,6 +103,10 @@ func (s *Server) handleProxy() http.HandlerFunc {
 				s.Log(debug.LogError, err)
 				s.HandleError(w, r, 502)
 			}
+			return
 		}
+
+		// There is no upstream for this host
+		s.HandleError(w, r, 502)
 	}
 }
-- 
2.43.0


From 3dc9a3c5f9d3ca4a92fdd9ab9487e48310a4e7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 13/19] fix: custom error pages are sent with the status of the
 error

---
 tuna/handleerror.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tuna/handleerror.go b/tuna/handleerror.go
index 5a960d3..8b78624 100644
--- a/tuna/handleerror.go
+++ b/tuna/handleerror.go
@@ -18,8 +18,8 @@ import (
 	"bytes"
 	"fmt"
 	"html/template"
+	"io/ioutil"
 	"net/http"
-	"os"
 	"strconv"
 
 	"github.com/redmaner/MaguroHTTP/debug"
@@ -45,18 +45,22 @@ func (s *Server) HandleError(w http.ResponseWriter, r *http.Request, errorCode i
 
 	// Custom error pages can be set in the configuration.
 	if val, ok := cfg.Errors[strconv.Itoa(errorCode)]; ok {
-		if _, err := os.Stat(val); err == nil {
-			http.ServeFile(w, r, val)
+		page, err := ioutil.ReadFile(val)
+		if err == nil {
+			w.Header().Set("Content-Type", getMIMEType(val, cfg.Serve.MIMETypes))
+			w.WriteHeader(errorCode)
+			s.WriteString(w, string(page))
 			return
 		}
+		s.Log(debug.LogError, err)
 	}
 
 	buf := bytes.NewBufferString("")
 
 	// If custom error pages aren't set the default error message is shown.
 	// This is a very basic HTTP error code page without any technical information.
-	w.WriteHeader(errorCode)
 	w.Header().Set("Content-Type", "text/html")
+	w.WriteHeader(errorCode)
 	switch errorCode {
 	case 403:
 		s.WriteString(buf, "<h3>Error 403 - Forbidden</h3>")
-- 
2.43.0


From eb098dd194eddf701d50a8dd559cb63300f2c4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 14/19] fix: a site directory that cannot be read does not
 crash the download list

---
 tuna/handledownload.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tuna/handledownload.go b/tuna/handledownload.go
index 92a577b..a800686 100644
--- a/tuna/handledownload.go
+++ b/tuna/handledownload.go
@@ -49,7 +49,8 @@ func (s *Server) handleDownload() http.HandlerFunc {
 		if cfg.Serve.Download.Enabled {
 			for _, v := range cfg.Serve.Download.Exts {
 				err := filepath.Walk(cfg.Serve.ServeDir, func(path string, f os.FileInfo, _ error) error {
-					if f.IsDir() {
+					// f is nil when ServeDir itself cannot be read
+					if f == nil || f.IsDir() {
 						return nil
 					}
 
-- 
2.43.0


From 012cdb041bb0e44047dd6ededed28cc121e69a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 15/19] fix: a configuration that serves files must define
 ServeDir

---
 tuna/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tuna/config.go b/tuna/config.go
index 204a1fb..f121904 100644
--- a/tuna/config.go
+++ b/tuna/config.go
@@ -279,6 +279,11 @@ func (c *Config) Validate(p string, isVhost bool) {
 		}
 	}
 
+	// Without ServeDir the files of the whole system would be served
+	if !c.Proxy.Enabled && !c.Serve.Download.Enabled && len(c.Serve.Methods) > 0 && c.Serve.ServeDir == "" {
+		log.Fatalf("%s: The server configuration has missing elements: check ServeDir", p)
+	}
+
 	// Test proxy
 	if c.Proxy.Enabled {
 		if len(c.Proxy.Rules) == 0 {
-- 
2.43.0


From b59be5edde2d9bdceae5ec1b1365e02eb1046f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 16/19] fix: an upstream status code that cannot be sent is
 answered with 502

---
 tuna/handleproxy.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tuna/handleproxy.go b/tuna/handleproxy.go
index c278fa1..1f8b022 100644
--- a/tuna/handleproxy.go
+++ b/tuna/handleproxy.go
@@ -82,6 +82,13 @@ func (s *Server) handleProxy() http.HandlerFunc {
 			// the new request is executed with a http.RoundTripper.
 			if resp, err := s.Transport.RoundTrip(req); err == nil {
 
+				// A status code below 100 can't be sent to the client
+				if resp.StatusCode < 100 {
+					s.Log(debug.LogError, resp.Body.Close())
+					s.HandleError(w, r, 502)
+					return
+				}
+
 				// Proxy back all response headers
 				copyHeader(w.Header(), resp.Header)
 
-- 
2.43.0


From 9ba8fb15179ed7b7c84f69c660dbce25067d2922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 17/19] fix: save metrics without copying their mutex

---
 tuna/metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index b012e8e..8313214 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -169,7 +169,7 @@ func (s *Server) flushMetrics() {
 	s.Log(debug.LogError, err)
 
 	s.metrics.mu.Lock()
-	bs, err := json.MarshalIndent(s.metrics, "", "  ")
+	bs, err := json.MarshalIndent(&s.metrics, "", "  ")
 	s.Log(debug.LogError, err)
 	s.metrics.mu.Unlock()
 
-- 
2.43.0


From 3b41eaccd90a7ea660f1cf2278b465e43f3d4078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 18/19] fix: a crash while saving metrics no longer loses them

---
 tuna/metrics.go | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/tuna/metrics.go b/tuna/metrics.go
index 8313214..4af8653 100644
--- a/tuna/metrics.go
+++ b/tuna/metrics.go
@@ -19,8 +19,10 @@ import (
 	"fmt"
 	"html/template"
 	"io"
+	"io/ioutil"
 	"net/http"
 	"os"
+	"path/filepath"
 	"sync"
 	"time"
 
@@ -158,22 +160,38 @@ func (s *Server) metricsDaemon() {
 }
 
 // This function flushes metricsData to a file
+// The file is replaced as a whole, a crash while saving never leaves a partial one
 func (s *Server) flushMetrics() {
-	var mdout *os.File
-	var err error
-
-	mdout, err = os.Create(s.Cfg.Core.Metrics.Out)
-	s.Log(debug.LogError, err)
-
-	mdout, err = os.OpenFile(s.Cfg.Core.Metrics.Out, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0666)
-	s.Log(debug.LogError, err)
-
 	s.metrics.mu.Lock()
 	bs, err := json.MarshalIndent(&s.metrics, "", "  ")
-	s.Log(debug.LogError, err)
 	s.metrics.mu.Unlock()
+	if err != nil {
+		s.Log(debug.LogError, err)
+		return
+	}
 
-	s.WriteString(mdout, string(bs))
-	err = mdout.Close()
-	s.Log(debug.LogError, err)
+	out := s.Cfg.Core.Metrics.Out
+	tmp, err := ioutil.TempFile(filepath.Dir(out), filepath.Base(out)+".*")
+	if err != nil {
+		s.Log(debug.LogError, err)
+		return
+	}
+
+	_, err = tmp.Write(bs)
+	if err == nil {
+		err = tmp.Chmod(0644)
+	}
+	if err == nil {
+		err = tmp.Sync()
+	}
+	if cerr := tmp.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), out)
+	}
+	if err != nil {
+		os.Remove(tmp.Name())
+		s.Log(debug.LogError, err)
+	}
 }
-- 
2.43.0


From a6d64e53c863b35fb7ce2873bfa18b810a05ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 19/19] fix: a stop signal no longer cuts running requests

---
 tuna/serve.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tuna/serve.go b/tuna/serve.go
index c5aa8cf..3319288 100644
--- a/tuna/serve.go
+++ b/tuna/serve.go
@@ -47,7 +47,7 @@ func (s *Server) Serve() {
 
 	go func() {
 		// Gracefully stop the server in case of a signal
-		sig := make(chan os.Signal)
+		sig := make(chan os.Signal, 1)
 		signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
 		for {
 			select {
@@ -66,7 +66,6 @@ func (s *Server) Serve() {
 				if err := server.Shutdown(ctx); err != nil {
 					s.Log(debug.LogNone, fmt.Errorf("could not gracefully shutdown the server: %v", err))
 				}
-				close(sig)
 				os.Exit(1)
 			}
 		}
@@ -94,6 +93,10 @@ func (s *Server) Serve() {
 		server.TLSConfig = tlsc
 
 		err := server.ListenAndServeTLS(tlsCert, tlsKey)
+		if err == http.ErrServerClosed {
+			// the process ends when the running requests are finished
+			select {}
+		}
 		if err != nil {
 			panic(err)
 		}
@@ -102,6 +105,9 @@ func (s *Server) Serve() {
 	default:
 		s.Log(debug.LogNone, fmt.Errorf("MaguroHTTP %s is listening on port %s", Version, s.Cfg.Core.Port))
 		err := server.ListenAndServe()
+		if err == http.ErrServerClosed {
+			select {}
+		}
 		if err != nil {
 			panic(err)
 		}
-- 
2.43.0

