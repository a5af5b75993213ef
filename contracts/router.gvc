package router
import http "net/http"
import path "path"
import net "net"

// ---- what the router promises, in terms of the registered routes

spec rec func hostOf(h string) string = ite(res(net.SplitHostPort(h), 2) == nil, net.SplitHostPort(h), h)

spec func rooted(p string) string = ite(hasPrefix(p, "/"), p, "/" + p)
spec rec func canonPath(p string) string = ite(path.Clean(rooted(p)) != "/" && hasSuffix(p, "/"), path.Clean(rooted(p)) + "/", path.Clean(rooted(p)))

// nearest registered ancestor-or-self of q below the root, "" if there is none
spec rec func nearest(m map[string]pathRoute, h string, q string) string = ite(q == "/", "", ite((h + q) in m, q, nearest(m, h, path.Dir(q))))

// 2: exact, 1: ancestor, 0: nothing
spec func matchKind(m map[string]pathRoute, h string, p string) int = ite((h + p) in m, 2, ite(nearest(m, h, p) != "" || (h + "/") in m, 1, 0))
spec func matchKey(m map[string]pathRoute, h string, p string) string = ite((h + p) in m, h + p, ite(nearest(m, h, p) != "", h + nearest(m, h, p), h + "/"))

spec func mediaType(ct string) string = splitAt(ct, ";", 0)
spec func declares(content string, mt string) bool = exists j int {splitAt(content, ";", j)} :: 0 <= j && j < splitN(content, ";") && splitAt(content, ";", j) == mt
spec rec func accepts(content string, ct string) bool = content == "*" || declares(content, mediaType(ct))

spec func useDefault(m map[string]pathRoute, h string, p string) bool = matchKind(m, h, p) == 0 || matchKind(m, h, p) == 1 && matchKind(m, "DEFAULT", p) == 2
spec func selHost(m map[string]pathRoute, h string, p string) string = ite(useDefault(m, h, p), "DEFAULT", h)
spec func selKind(m map[string]pathRoute, h string, p string) int = matchKind(m, selHost(m, h, p), p)
spec func selRoute(m map[string]pathRoute, h string, p string) pathRoute = m[matchKey(m, selHost(m, h, p), p)]

spec func statusOf(m map[string]pathRoute, h string, p string, method string, ct string) int =
  ite(selKind(m, h, p) == 0, 404,
  ite(!(method in selRoute(m, h, p).subRoutes), 405,
  ite(!accepts(selRoute(m, h, p).subRoutes[method].content, ct), 406,
  ite(selKind(m, h, p) == 1 && !selRoute(m, h, p).subRoutes[method].pathFallback, 404, 200))))

spec rec func compose(s []Middleware, i int, h http.Handler) http.Handler = ite(i >= len(s), h, s[i].MiddlewareHTTP(compose(s, i + 1, h)))

guard SRouter.mu
  fields routes
  content map[string]pathRoute
  content map[string]methodRoute
  owns Middleware
  invariant [C01 C06] every path has a method table: forall k string {self.routes[k].subRoutes} :: k in self.routes ==> self.routes[k].subRoutes != nil
  invariant [C01 C06] method tables are not shared: forall k string, l string {self.routes[k].subRoutes, self.routes[l].subRoutes} :: k in self.routes && l in self.routes && k != l ==> self.routes[k].subRoutes != self.routes[l].subRoutes
  invariant [C05 C06] middleware lists are not shared: forall k string, l string {self.routes[k].middleware, self.routes[l].middleware} :: k in self.routes && l in self.routes && k != l ==> backing(self.routes[k].middleware) != backing(self.routes[l].middleware)
  invariant [C01 C06] handlers are not nil: forall k string, m string {self.routes[k].subRoutes[m].handler} :: k in self.routes && m in self.routes[k].subRoutes ==> self.routes[k].subRoutes[m].handler != nil
  invariant [C05 C06] middleware lists are allocated: forall k string {self.routes[k].middleware} :: k in self.routes ==> backing(self.routes[k].middleware) != 0
  invariant [C05 C06] middleware is not nil: forall k string, i int {self.routes[k].middleware[i]} :: k in self.routes && 0 <= i && i < len(self.routes[k].middleware) ==> self.routes[k].middleware[i] != nil

contract router.StripHostPort
  func router.StripHostPort(h) results (r)
  tags C26
  modular
  ensures r == hostOf(h)

// A rooted path without a dot-dot element stays below the directory it is appended to. The predicate nodotdot is kept
// abstract: the trusted contract of path.Clean says its result has no such element, also with a slash added.
spec func contained(p string) bool = hasPrefix(p, "/") && ufb("nodotdot", p)

contract router.cleanPath
  func router.cleanPath(p) results (r)
  tags C04 C12
  modular
  optional
  ensures r == canonPath(p)
  ensures [C12] no canonical path leaves the directory it is appended to: contained(r)

contract router.ServeHTTP
  func router.(*SRouter).ServeHTTP(sr, w, r)
  tags C01 C02 C03 C04 C05 C11 C12 C27
  safety C27
  requires r != nil && r.URL != nil
  requires sr.ErrorHandler != nil
  given h0 http.Handler
  let H = hostOf(old(r.Host))
  let P = canonPath(old(r.URL.Path))
  let CT = old(header(r.Header, "Content-Type"))
  let M = sr.routes
  let ST = locked(statusOf(sr.routes, H, P, old(r.Method), CT))
  let RT = locked(selRoute(sr.routes, H, P))
  let CONT = locked(selRoute(sr.routes, H, P).subRoutes[old(r.Method)].content)
  ensures [C01] admitted requests run the composed handler once: ST == 200 ==> calls(serve) == 1 && arg(serve, w) == w && arg(serve, r) == r
  ensures [C01 C05] the handler is the route's handler wrapped by its middleware: ST == 200 ==> arg(serve, h) == compose(locked(selRoute(sr.routes, H, P).middleware), 0, locked(selRoute(sr.routes, H, P).subRoutes[old(r.Method)].handler))
  ensures [C01 C02] admitted requests are not refused: ST == 200 ==> calls(refuse) == 0
  ensures [C02] refused requests reach the error handler once with the status: ST != 200 ==> calls(refuse) == 1 && arg(refuse, code) == ST && arg(refuse, w) == w && arg(refuse, r) == r && arg(refuse, f) == sr.ErrorHandler
  ensures [C02] refused requests run no handler: ST != 200 ==> calls(serve) == 0 && calls(callhandler) == 0
  ensures [C03] a refused content type is answered with 406 and nothing else is: calls(refuse) == 1 && arg(refuse, code) == 406 <==> ST == 406
  ensures [C03] an accepted content type lets the request through: ST == 200 ==> calls(serve) == 1 && calls(refuse) == 0
  on [C04 C12] serve assert r.URL.Path == P
  on [C04 C12] refuse assert r.URL.Path == P
  on [C12] serve assert contained(r.URL.Path)
  on [C12] refuse assert contained(r.URL.Path)
  cover ST == 200
  cover ST == 404
  cover ST == 405
  cover ST == 406
  candidate $s string :: nearest(locked(sr.routes), H, $s) == nearest(locked(sr.routes), H, P)
  let MW = locked(selRoute(sr.routes, H, P).middleware)
  let HD = locked(selRoute(sr.routes, H, P).subRoutes[old(r.Method)].handler)
  candidate $s string :: nearest(locked(sr.routes), "DEFAULT", $s) == nearest(locked(sr.routes), "DEFAULT", P)
  candidate $i int :: forall j int {splitAt(CONT, ";", j)} :: 0 <= j && j <= $i ==> splitAt(CONT, ";", j) != mediaType(CT)
  candidate $i int :: forall j int {splitAt(CONT, ";", j)} :: 0 <= j && j < $i ==> splitAt(CONT, ";", j) != mediaType(CT)
  candidate $h http.Handler, $i int :: $h == compose(MW, $i + 1, HD)
  candidate $h http.Handler, $i int :: $h == compose(MW, $i, HD)
  candidate $s []Middleware :: backing($s) == backing(MW) && offset($s) == offset(MW) && len($s) <= len(MW)
  candidate $h http.Handler, $s []Middleware :: $h == compose(MW, len($s), HD)

contract router.matchRoute
  func router.(*SRouter).matchRoute(sr, host, urlPath) results (match, exact, route)
  tags C01
  modular
  optional
  holds sr.mu
  requires hasPrefix(urlPath, "/")
  ensures match <==> matchKind(sr.routes, host, urlPath) != 0
  ensures exact <==> matchKind(sr.routes, host, urlPath) == 2
  ensures match ==> route == sr.routes[matchKey(sr.routes, host, urlPath)]
  candidate $s string :: nearest(sr.routes, host, $s) == nearest(sr.routes, host, urlPath)
  candidate $s string :: hasPrefix($s, "/")

contract router.contentAllowed
  func router.(*methodRoute).contentAllowed(mr, contentType) results (r)
  tags C03
  modular
  optional
  ensures r <==> accepts(mr.content, contentType)
  candidate $i int :: forall j int {splitAt(mr.content, ";", j)} :: 0 <= j && j <= $i ==> splitAt(mr.content, ";", j) != mediaType(contentType)
  candidate $i int :: forall j int {splitAt(mr.content, ";", j)} :: 0 <= j && j < $i ==> splitAt(mr.content, ";", j) != mediaType(contentType)


// ---- registration

spec func httpMethod(m string) bool = m == "GET" || m == "PUT" || m == "POST" || m == "DELETE" || m == "PATCH" || m == "CONNECT" || m == "OPTIONS" || m == "HEAD"
spec func webdavMethod(m string) bool = m == "PROPFIND" || m == "PROPPATCH" || m == "MKCOL" || m == "COPY" || m == "MOVE" || m == "LOCK" || m == "UNLOCK"
spec func regPath(p string) string = ite(p != "/" && hasSuffix(p, "/"), p[:len(p)-1], p)
spec func badRoute(webdav bool, host string, p string, method string, h http.Handler) bool = host == "" || p == "" || h == nil || !httpMethod(method) && !(webdav && webdavMethod(method))

contract router.AddRoute
  func router.(*SRouter).AddRoute(sr, host, path, fallback, method, content, handler)
  tags C01 C05 C06 C11
  safety C27
  let K = host + regPath(path)
  aborts [C06] badRoute(sr.WebDAV, host, path, method, handler)
  ensures [C06] a refused registration does not return: !badRoute(sr.WebDAV, host, path, method, handler)
  ensures [C06] the route is registered with exactly what was given: K in unlocked(sr.routes) && method in unlocked(sr.routes[K].subRoutes) && unlocked(sr.routes[K].subRoutes[method].handler) == handler && unlocked(sr.routes[K].subRoutes[method].content) == content && unlocked(sr.routes[K].subRoutes[method].pathFallback) == fallback
  ensures [C06] no other path is added or removed: forall k string :: k != K ==> (k in unlocked(sr.routes) <==> k in locked(sr.routes))
  ensures [C06] other methods of the path stay as they were: forall m string :: m != method ==> (m in unlocked(sr.routes[K].subRoutes) <==> locked(K in sr.routes && m in sr.routes[K].subRoutes)) && (locked(K in sr.routes && m in sr.routes[K].subRoutes) ==> unlocked(sr.routes[K].subRoutes[m]) == locked(sr.routes[K].subRoutes[m]))
  ensures [C06] methods of other paths stay as they were: forall k string, m string :: k != K && k in locked(sr.routes) ==> (m in unlocked(sr.routes[k].subRoutes) <==> m in locked(sr.routes[k].subRoutes)) && (m in locked(sr.routes[k].subRoutes) ==> unlocked(sr.routes[k].subRoutes[m]) == locked(sr.routes[k].subRoutes[m]))
  ensures [C06] registering a route adds and removes no middleware: forall k string :: k in unlocked(sr.routes) ==> len(unlocked(sr.routes[k].middleware)) == ite(k in locked(sr.routes), len(locked(sr.routes[k].middleware)), 0)
  ensures [C06] registering a route keeps the middleware: forall k string, i int :: k in locked(sr.routes) && 0 <= i && i < len(locked(sr.routes[k].middleware)) ==> unlocked(sr.routes[k].middleware[i]) == locked(sr.routes[k].middleware[i])
  cover sr.WebDAV && method == "COPY"
  cover path == "/"

contract router.UseMiddleware
  func router.(*SRouter).UseMiddleware(sr, host, path, handler)
  tags C01 C05 C06 C11
  safety C27
  let K = host + regPath(path)
  aborts [C06] host == "" || path == "" || handler == nil
  ensures [C06] a refused registration does not return: !(host == "" || path == "" || handler == nil)
  ensures [C06] the middleware is appended: K in unlocked(sr.routes) && len(unlocked(sr.routes[K].middleware)) == ite(K in locked(sr.routes), len(locked(sr.routes[K].middleware)), 0) + 1 && unlocked(sr.routes[K].middleware[len(unlocked(sr.routes[K].middleware)) - 1]) == handler
  ensures [C06] earlier middleware keeps its order: forall i int :: K in locked(sr.routes) && 0 <= i && i < len(locked(sr.routes[K].middleware)) ==> unlocked(sr.routes[K].middleware[i]) == locked(sr.routes[K].middleware[i])
  ensures [C06] no other path is added or removed: forall k string :: k != K ==> (k in unlocked(sr.routes) <==> k in locked(sr.routes))
  ensures [C06] other paths keep their middleware: forall k string :: k != K && k in locked(sr.routes) ==> unlocked(sr.routes[k].middleware) == locked(sr.routes[k].middleware)
  ensures [C06] elements of other middleware lists stay: forall k string, i int :: k != K && k in locked(sr.routes) && 0 <= i && i < len(locked(sr.routes[k].middleware)) ==> unlocked(sr.routes[k].middleware[i]) == locked(sr.routes[k].middleware[i])
  ensures [C06] methods stay as they were: forall k string, m string :: k in unlocked(sr.routes) ==> (m in unlocked(sr.routes[k].subRoutes) <==> locked(k in sr.routes && m in sr.routes[k].subRoutes)) && (locked(k in sr.routes && m in sr.routes[k].subRoutes) ==> unlocked(sr.routes[k].subRoutes[m]) == locked(sr.routes[k].subRoutes[m]))

contract router.NewRouter.errors
  func router.NewRouter() then (w, r, code) via ErrorHandler
  tags C02
  safety C27
  ensures [C02] the default error handler answers with the status: code == 404 || code == 405 || code == 406 ==> calls(status) == 1 && arg(status, code) == code && arg(status, w) == w

// what callers of the registration functions rely on
event addroute(sr *SRouter, host string, path string, fallback bool, method string, content string, handler http.Handler)
event usemw(sr *SRouter, host string, path string, mw Middleware)

contract router.AddRoute.call
  func router.(*SRouter).AddRoute(sr, host, path, fallback, method, content, handler)
  tags C22
  modular
  requires sr != nil
  aborts [C06] badRoute(sr.WebDAV, host, path, method, handler)
  calls addroute(sr, host, path, fallback, method, content, handler)

contract router.UseMiddleware.call
  func router.(*SRouter).UseMiddleware(sr, host, path, handler)
  tags C22
  modular
  requires sr != nil
  aborts [C06] host == "" || path == "" || handler == nil
  calls usemw(sr, host, path, handler)
