package guard
import http "net/http"
import path "path"
import net "net"
import rate "golang.org/x/time/rate"
import time "time"

// ---- firewall

spec func fwMatch(rules map[string][]string, k string, a string) bool = k in rules && exists i int {rules[k][i]} :: 0 <= i && i < len(rules[k]) && (rules[k][i] == a || rules[k][i] == "*")
spec rec func fwBelow(rules map[string][]string, p string, a string) bool = p != "/" && (fwMatch(rules, p, a) || fwBelow(rules, path.Dir(p), a))
spec func fwListed(rules map[string][]string, sub bool, p string, a string) bool = fwBelow(rules, p, a) || fwMatch(rules, "/", a) && (p == "/" || !sub)

contract guard.BlockHTTP
  func guard.(*Firewall).BlockHTTP(f, handler) then (w, r)
  tags C07
  safety C27
  requires r != nil && r.URL != nil
  requires f.ErrorHandler != nil && handler != nil
  let A = hostOf(old(r.RemoteAddr))
  let P = old(r.URL.Path)
  let ADMIT = old(f.Blacklisting) != old(fwListed(f.Rules, f.Subpath, P, A))
  ensures [C07] an admitted client is served once: ADMIT ==> calls(callhandler) == 1 && arg(callhandler, f) == handler && arg(callhandler, w) == w && arg(callhandler, r) == r
  ensures [C07] an admitted client is not refused: ADMIT ==> calls(refuse) == 0
  ensures [C07] a blocked client is refused with 403 once: !ADMIT ==> calls(refuse) == 1 && arg(refuse, code) == 403 && arg(refuse, w) == w && arg(refuse, r) == r && arg(refuse, f) == old(f.ErrorHandler)
  ensures [C07] a blocked client is not served: !ADMIT ==> calls(callhandler) == 0
  ensures [C07] nothing else runs: calls(serve) == 0 && calls(status) == 0 && calls(write) == 0
  candidate $s string :: fwBelow(f.Rules, P, A) <==> fwBelow(f.Rules, $s, A)
  candidate $i int, $s string :: forall j int {f.Rules[$s][j]} :: 0 <= j && j <= $i ==> f.Rules[$s][j] != A && f.Rules[$s][j] != "*"
  candidate $i int, $s string :: forall j int {f.Rules[$s][j]} :: 0 <= j && j < $i ==> f.Rules[$s][j] != A && f.Rules[$s][j] != "*"
  candidate $b bool, $i int, $s string :: $b || (forall j int {f.Rules[$s][j]} :: 0 <= j && j <= $i ==> f.Rules[$s][j] != A && f.Rules[$s][j] != "*")
  candidate $b bool, $s string :: $b ==> (exists j int {f.Rules[$s][j]} :: 0 <= j && j < len(f.Rules[$s]) && (f.Rules[$s][j] == A || f.Rules[$s][j] == "*"))
  candidate $b bool, $i int :: $b || (forall j int {f.Rules["/"][j]} :: 0 <= j && j <= $i ==> f.Rules["/"][j] != A && f.Rules["/"][j] != "*")
  candidate $b bool :: $b ==> (exists j int {f.Rules["/"][j]} :: 0 <= j && j < len(f.Rules["/"]) && (f.Rules["/"][j] == A || f.Rules["/"][j] == "*"))
  candidate $i int :: forall j int {f.Rules["/"][j]} :: 0 <= j && j <= $i ==> f.Rules["/"][j] != A && f.Rules["/"][j] != "*"
  candidate $i int :: forall j int {f.Rules["/"][j]} :: 0 <= j && j < $i ==> f.Rules["/"][j] != A && f.Rules["/"][j] != "*"
  cover ADMIT
  cover !ADMIT

contract guard.BlockProxy
  func guard.(*Firewall).BlockProxy(f, handler) then (w, r)
  tags C07
  safety C27
  requires r != nil && r.URL != nil
  requires f.ErrorHandler != nil && handler != nil
  let A = hostOf(old(r.RemoteAddr))
  let P = old(r.URL.Path)
  let ADMIT = old(f.Blacklisting) != old(fwListed(f.Rules, f.Subpath, P, A))
  ensures [C07] an admitted client is served once: ADMIT ==> calls(callhandler) == 1 && arg(callhandler, f) == handler && arg(callhandler, w) == w && arg(callhandler, r) == r
  ensures [C07] an admitted client is not refused: ADMIT ==> calls(refuse) == 0
  ensures [C07] a blocked client is refused with 403 once: !ADMIT ==> calls(refuse) == 1 && arg(refuse, code) == 403 && arg(refuse, w) == w && arg(refuse, r) == r && arg(refuse, f) == old(f.ErrorHandler)
  ensures [C07] a blocked client is not served: !ADMIT ==> calls(callhandler) == 0
  ensures [C07] nothing else runs: calls(serve) == 0 && calls(status) == 0 && calls(write) == 0
  candidate $s string :: fwBelow(f.Rules, P, A) <==> fwBelow(f.Rules, $s, A)
  candidate $i int, $s string :: forall j int {f.Rules[$s][j]} :: 0 <= j && j <= $i ==> f.Rules[$s][j] != A && f.Rules[$s][j] != "*"
  candidate $i int, $s string :: forall j int {f.Rules[$s][j]} :: 0 <= j && j < $i ==> f.Rules[$s][j] != A && f.Rules[$s][j] != "*"
  candidate $b bool, $i int, $s string :: $b || (forall j int {f.Rules[$s][j]} :: 0 <= j && j <= $i ==> f.Rules[$s][j] != A && f.Rules[$s][j] != "*")
  candidate $b bool, $s string :: $b ==> (exists j int {f.Rules[$s][j]} :: 0 <= j && j < len(f.Rules[$s]) && (f.Rules[$s][j] == A || f.Rules[$s][j] == "*"))
  candidate $b bool, $i int :: $b || (forall j int {f.Rules["/"][j]} :: 0 <= j && j <= $i ==> f.Rules["/"][j] != A && f.Rules["/"][j] != "*")
  candidate $b bool :: $b ==> (exists j int {f.Rules["/"][j]} :: 0 <= j && j < len(f.Rules["/"]) && (f.Rules["/"][j] == A || f.Rules["/"][j] == "*"))
  candidate $i int :: forall j int {f.Rules["/"][j]} :: 0 <= j && j <= $i ==> f.Rules["/"][j] != A && f.Rules["/"][j] != "*"
  candidate $i int :: forall j int {f.Rules["/"][j]} :: 0 <= j && j < $i ==> f.Rules["/"][j] != A && f.Rules["/"][j] != "*"
  cover ADMIT
  cover !ADMIT

contract guard.NewFirewall.errors
  func guard.NewFirewall() then (w, r, code) via ErrorHandler
  tags C07
  safety C27
  ensures [C07] the default error handler answers 403: code == 403 ==> calls(status) == 1 && arg(status, code) == 403 && arg(status, w) == w

// ---- basic authentication

spec func basicText(auth string) string = ufs("b64dec", auth[6:])
spec func wellFormed(auth string) bool = hasPrefix(auth, "Basic ") && ufb("b64ok", auth[6:]) && contains(basicText(auth), ":")
spec func basicUser(auth string) string = basicText(auth)[:indexOf(basicText(auth), ":")]
spec func basicPass(auth string) string = basicText(auth)[indexOf(basicText(auth), ":") + 1:]
spec func credentialsOK(users map[string]AuthUser, auth string) bool = wellFormed(auth) && basicUser(auth) in users && users[basicUser(auth)].User == basicUser(auth) && users[basicUser(auth)].Password == basicPass(auth)

contract guard.Authenticate
  func guard.(BasicAuth).Authenticate(b, handler) then (w, r)
  tags C08
  safety C27
  requires handler != nil && w != nil && r != nil && b.AuthFunc == nil
  let AUTH = old(header(r.Header, "Authorization"))
  let OK = old(credentialsOK(b.Users, header(r.Header, "Authorization")))
  ensures [C08] registered credentials are served once: OK ==> calls(callhandler) == 1 && arg(callhandler, f) == handler && arg(callhandler, w) == w && arg(callhandler, r) == r
  ensures [C08] registered credentials are not refused: OK ==> calls(refuse) == 0 && calls(status) == 0 && calls(headerset) == 0
  ensures [C08] other requests are not served: !OK ==> calls(callhandler) == 0 && calls(serve) == 0
  ensures [C08] other requests are refused with 401: !OK ==> calls(refuse) + calls(status) == 1 && (calls(refuse) == 1 ==> arg(refuse, code) == 401 && arg(refuse, w) == w && arg(refuse, r) == r && arg(refuse, f) == old(b.UnauthorizedHandler)) && (calls(status) == 1 ==> arg(status, code) == 401 && arg(status, w) == w && old(b.UnauthorizedHandler) == nil)
  ensures [C08] the refusal names the realm: !OK ==> header(w.Header(), "WWW-Authenticate") == sprintf("Basic realm=%q", old(b.Realm))
  on [C08] refuse assert header(w.Header(), "WWW-Authenticate") == sprintf("Basic realm=%q", old(b.Realm))
  on [C08] status assert header(w.Header(), "WWW-Authenticate") == sprintf("Basic realm=%q", old(b.Realm))
  cover OK
  cover !OK

contract guard.SimpleBasicAuth
  func guard.SimpleBasicAuth(users) results (b)
  tags C08
  modular
  safety C27
  ensures [C08] every given user is registered with the given password: forall u string :: u in users ==> u in b.Users && b.Users[u].User == u && b.Users[u].Password == users[u]
  ensures [C08] nobody else is registered: forall u string :: u in b.Users ==> u in users
  ensures [C08] the challenge has a realm and no other check applies: b != nil && b.AuthFunc == nil && b.Realm != ""
  candidate $m map[string]AuthUser :: forall u string :: visited(u) ==> u in $m && $m[u].User == u && $m[u].Password == users[u]
  candidate $m map[string]AuthUser :: forall u string :: u in $m ==> u in users

// ---- request limiter

spec func clientKey(l *Limiter, r *http.Request) string = ite(l.FilterOnIP, hostOf(r.RemoteAddr), hostOf(r.RemoteAddr) + header(r.Header, "User-Agent"))
spec func bucketOf(v any) *rate.Limiter = v as *rate.Limiter

contract guard.LimitHTTP
  func guard.(*Limiter).LimitHTTP(l, h) then (w, r)
  tags C09
  safety C27
  requires l != nil && l.cache != nil && forall i int {l.cache.shards[i]} :: 0 <= i && i < 256 ==> l.cache.shards[i] != nil
  requires l.ErrorHandler != nil && h != nil && r != nil
  ghost section int = 0
  let KEY = old(clientKey(l, r))
  let HIT = arg(cacheget, ok)
  let BUCKET = arg(draw, b)
  // only buckets are ever retained in the limiter's cache (asserted where they are stored)
  on cacheget assume ok ==> v is *rate.Limiter && bucketOf(v) != nil
  on [C09] cacheset assert c == l.cache ==> v is *rate.Limiter && bucketOf(v) != nil
  on [C09 C11] cacheget assert held(l.mu)
  on [C09 C11] cacheset assert held(l.mu)
  on cacheget update section := calls(lock)
  on [C09] cacheset assert section == calls(lock)
  ensures [C09] the client's retained bucket is looked up once: calls(cacheget) == 1 && arg(cacheget, c) == old(l.cache) && arg(cacheget, key) == KEY && arg(cacheget, maxAge) >= 900000000000
  ensures [C09] one token is drawn per request: calls(draw) == 1
  ensures [C09] the retained bucket is the one drawn from: HIT ==> BUCKET == bucketOf(arg(cacheget, v)) && calls(newbucket) == 0
  ensures [C09] a client without a bucket gets a fresh one with the configured rate and burst: !HIT ==> calls(newbucket) == 1 && BUCKET == arg(newbucket, b) && arg(newbucket, rate) == old(l.RatePerSec) && arg(newbucket, burst) == old(l.RateBurst)
  ensures [C09] the bucket drawn from is the one retained: calls(cacheset) <= 1 && (calls(cacheset) == 1 ==> arg(cacheset, c) == old(l.cache) && arg(cacheset, key) == KEY && bucketOf(arg(cacheset, v)) == BUCKET)
  ensures [C09] a fresh bucket is retained: !HIT ==> calls(cacheset) == 1
  ensures [C09] a granted request is served once: arg(draw, granted) ==> calls(callhandler) == 1 && arg(callhandler, f) == h && arg(callhandler, w) == w && arg(callhandler, r) == r && calls(refuse) == 0
  ensures [C09] a request without a token is refused with 429 once: !arg(draw, granted) ==> calls(callhandler) == 0 && calls(refuse) == 1 && arg(refuse, code) == 429 && arg(refuse, w) == w && arg(refuse, r) == r && arg(refuse, f) == old(l.ErrorHandler)
  ensures [C09] nothing else answers: calls(serve) == 0 && calls(status) == 0 && calls(write) == 0
  cover HIT
  cover !HIT
  cover arg(draw, granted)

contract guard.NewLimiter
  func guard.NewLimiter(ratePerMin, rateBurst, filterIP) results (l)
  tags C09
  safety C27
  ensures [C09] the limiter is configured as asked: l != nil && l.RatePerSec == ratePerMin / 60 && l.RateBurst == rateBurst && l.FilterOnIP == filterIP
  ensures [C09] it starts with an empty cache of its own: l.cache != nil && fresh(l.cache) && forall i int {l.cache.shards[i]} :: 0 <= i && i < 256 ==> l.cache.shards[i] != nil && forall q int {l.cache.shards[i].items[q]} :: 0 <= q && q < 1024 ==> l.cache.shards[i].items[q].key == 0
  ensures [C09] refusals can be answered: l.ErrorHandler != nil

contract guard.NewLimiter.errors
  func guard.NewLimiter(ratePerMin, rateBurst, filterIP) then (w, r, code) via ErrorHandler
  tags C09
  safety C27
  ensures [C09] the default error handler answers 429: code == 429 ==> calls(status) == 1 && arg(status, code) == 429 && arg(status, w) == w

contract guard.NewLimiter.call
  func guard.NewLimiter(ratePerMin, rateBurst, filterIP) results (l)
  tags C22
  modular
  allocates l
  ensures [C22] the limiter is configured as asked: l != nil && l.RatePerSec == ratePerMin / 60 && l.RateBurst == rateBurst && l.FilterOnIP == filterIP
