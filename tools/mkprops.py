#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so they can be edited readably)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "A request is dispatched to exactly the route its host and path select",
  "The candidate route of a request is the one registered for its host (any port ignored) or for the default host at exactly the request path, else at the nearest registered ancestor path, else at the root; the host's own match wins over the default host's unless only the default host's match is exact. When that candidate has the request's method, accepts its content type and is either an exact match or allows fallback, that handler and no other runs, exactly once, on the original request and response.",
  ["inputs", "configurations"], "every registered route table, every host, path, method and content type",
  "The router tests only print the resulting status codes for eight fixed requests against seven routes; nothing asserts which handler ran, and precedence depends on every combination of host match, default-host match, exactness and depth.",
  ["router/route.go", "router/router.go"],
  [("getRoute precedence switch", "router/route.go:getRoute"), ("ancestor walk", "router/route.go:matchRoute"), ("dispatch", "router/router.go:ServeHTTP")],
  [("routes", "host+path to method table and middleware", "router/router.go:SRouter")],
  ["handler invoked", "status of the response"])
p("C02", "A request no route admits is refused with the right status, no handler run",
  "When no candidate route exists the request is refused with 404; when the candidate lacks the method, with 405; else when it does not accept the content type, with 406; else when the match is inexact and the route does not allow fallback, with 404. A refused request reaches the error handler exactly once with that status and no route handler or middleware runs for it, and a request that is admitted is never refused.",
  ["inputs", "configurations"], "every route table and every request that does not match it fully",
  "The tests print the codes of four refused requests without asserting them; the order of the four reasons and the absence of a handler call hold or fail per combination of table and request.",
  ["router/route.go", "router/router.go"],
  [("status selection", "router/route.go:getRoute"), ("error dispatch", "router/router.go:ServeHTTP")], (), ["error handler calls"])
p("C03", "A route admits exactly its declared content types",
  "A route declared for any type accepts every request; any other route accepts a request if and only if the request's media type, taken up to the first parameter separator, is exactly one of the semicolon-separated types the route declares. A request without a content type is accepted only where the declaration contains the empty type.",
  ["inputs", "configurations"], "every declared content-type list and every Content-Type header value",
  "The tests cover two literal header values and do not assert the outcome; membership must hold for every list and header string.",
  ["router/route.go"], [("contentAllowed", "router/route.go:contentAllowed")], (), ["406 versus dispatch"])
p("C04", "Middleware and handlers only ever see a canonical, rooted path",
  "Whatever path a request carries, the path seen by middleware, handlers and the error handler is the canonical form of that path made absolute: it starts with a slash, has no empty, dot or dot-dot element, and keeps a trailing slash exactly when the request had one. Canonicalising an already canonical path changes nothing.",
  ["inputs"], "every request path string, including empty, relative, dotted and doubly slashed ones",
  "TestCleanPath samples four paths; path containment of the file server and firewall matching rest on this for every path.",
  ["router/utils.go", "router/router.go"], [("cleanPath", "router/utils.go:cleanPath"), ("path rewrite before dispatch", "router/router.go:ServeHTTP")], (), ["r.URL.Path in handlers"])
p("C05", "All middleware of a route wraps its handler, in registration order",
  "For every admitted request the handler runs wrapped by every middleware registered for the matched path, the first registered outermost and the last registered innermost, and the composed chain is invoked exactly once; without middleware the handler itself is invoked directly. Middleware of other paths or hosts is never applied.",
  ["inputs", "configurations"], "every number and order of middlewares, every route table and request",
  "TestMiddleware prints the output of two middlewares on one route and asserts nothing.",
  ["router/router.go", "router/middleware.go"], [("middleware composition loop", "router/router.go:ServeHTTP"), ("UseMiddleware", "router/middleware.go:UseMiddleware")], (), ["order of middleware effects"])
p("C06", "Registering a route or middleware changes that entry and nothing else",
  "Registering a handler makes exactly that host, path (one trailing slash dropped unless it is the root) and method resolve to that handler, fallback setting and content declaration, and registering middleware appends it to exactly that host's path; every other method, path, host and middleware already registered is left as it was. Blank parameters, a nil handler or middleware and any method outside the HTTP set (or, only when WebDAV is enabled, the WebDAV set) are refused, and nothing else is.",
  ["histories", "inputs", "configurations"], "every sequence of registrations with every argument, with and without WebDAV",
  "The tests register a handful of routes and never inspect the table; the frame condition ranges over all previously registered entries.",
  ["router/router.go", "router/middleware.go"], [("AddRoute", "router/router.go:AddRoute"), ("UseMiddleware", "router/middleware.go:UseMiddleware"), ("allowedMethodsHTTP tables", "router/router.go")],
  [("routes", "host+path to method table and middleware", "router/router.go:SRouter")], ["later dispatch"])
p("C07", "The firewall blocks exactly the clients its rules say, on every path",
  "A client is listed for a request when its address (port removed) or the wildcard is among the rules of the request path or of any ancestor path below the root, or among the root's rules when the request is for the root or root rules are not restricted to it. With blacklisting, listed clients are refused with 403 and all others are served; without it, listed clients are served and all others are refused with 403, identically for static content and for proxied content, with exactly one of serving and refusing per request.",
  ["inputs", "configurations"], "every rule table, mode, client address and request path",
  "There is no firewall test at all; the decision ranges over every rule table, path depth and mode.",
  ["guard/firewall.go"], [("BlockHTTP", "guard/firewall.go:BlockHTTP"), ("BlockProxy", "guard/firewall.go:BlockProxy")], (), ["handler call versus 403"])
p("C08", "Protected pages are served only for a registered user's exact credentials",
  "A handler behind basic authentication runs only if the request carries well-formed Basic credentials whose user name is registered and whose password, everything after the first colon, equals that user's password; with those credentials it does run. Every other request, including one with empty or malformed credentials or an unregistered user, gets a 401 refusal with a Basic challenge naming the realm and the handler is not called.",
  ["inputs", "configurations"], "every Authorization header and every user table",
  "There is no authentication test; acceptance must be excluded for every header outside the registered credentials.",
  ["guard/basicauth.go"], [("authenticate", "guard/basicauth.go:authenticate"), ("simpleBasicAuthFunc", "guard/basicauth.go:simpleBasicAuthFunc"), ("Authenticate", "guard/basicauth.go:Authenticate")], (), ["handler call", "status", "WWW-Authenticate"])
p("C09", "Each client is limited by one token bucket of its own, even under concurrency",
  "Every request draws one token from the bucket retained for its client (a bucket is retained for at least fifteen minutes after its last use unless the cache evicts it), identified by address (port removed) plus, unless filtering on address alone, its user agent; a client without a retained bucket gets a fresh one with the configured rate and burst. The request is served if and only if that bucket grants the token and is otherwise refused with 429, and no concurrent request of the same limiter can replace a bucket that is still retained.",
  ["inputs", "schedules", "configurations"], "every client identity, every limiter configuration and every interleaving of concurrent requests",
  "There is no limiter test; keeping one bucket per client depends on the interleaving of lookup and store by concurrent requests.",
  ["guard/limiter.go"], [("LimitHTTP", "guard/limiter.go:LimitHTTP"), ("NewLimiter", "guard/limiter.go:NewLimiter")], [("cache", "client key to bucket", "guard/limiter.go:Limiter")], ["429 versus handler call"])
p("C10", "The cache returns the latest unexpired value of a key and nothing else",
  "A lookup returns the value most recently stored for that key when that entry is retained and its age (the time since it was last stored or successfully looked up) does not exceed the given maximum, and reports absence otherwise: never an older value, an expired one or another key's. Storing or looking up one key never changes what any other key yields, other than by evicting the single oldest entry, and the unbounded search reports the true age of the entry it returns.",
  ["histories", "inputs", "schedules"], "every sequence of stores and lookups, every fill level and wrap-around position, every maximum age, with each operation atomic under its lock",
  "The cache tests store 26 keys once and print what comes back; wrap-around, duplicate entries, in-place updates and expiry order are never reached or asserted.",
  ["cache/get.go", "cache/set.go", "cache/find.go", "cache/shard.go", "cache/cache.go"], [("ring scan", "cache/get.go:Get"), ("update in place or append", "cache/set.go:Set"), ("appendKey", "cache/set.go:appendKey"), ("search", "cache/find.go:Find")],
  [("items/cursor", "ring of entries, cursor is the next slot to write", "cache/shard.go:shard")], ["Get/Find results"])
p("C11", "Shared state is only touched under its lock and no path leaks a lock",
  "Route tables, cache entries, metrics counters and client buckets are read and written only while the lock that protects them is held, by every operation on them. Every operation releases each lock it took on every way out, including error returns and a failing client connection, and never takes a lock it already holds.",
  ["schedules", "fault_sequences"], "every interleaving of requests and every way out of each operation, including write errors",
  "The tests are single-threaded and never fail a write; lock balance must hold on each path and access discipline under each schedule.",
  ["cache/get.go", "cache/set.go", "cache/find.go", "tuna/metrics.go", "router/router.go", "router/route.go", "router/middleware.go", "guard/limiter.go"],
  [("shard lock", "cache/shard.go:shard"), ("router RWMutex", "router/router.go:SRouter"), ("metrics mutex", "tuna/metrics.go:metricsData")], (), ["lock state at return"])
p("C12", "Static serving opens only existing files under the site's own directory",
  "For every request the static file handler serves exactly the file named by the request path below the configured site directory, with the configured index name appended when the path ends in a slash, and only if that file exists; otherwise it answers 404 through the error handler and serves nothing. No request path can name a file outside the site directory, symbolic links aside.",
  ["inputs", "configurations"], "every request path and every site configuration",
  "No test exercises the file handler; containment must hold for every path string.",
  ["tuna/handleserve.go", "tuna/handledownload.go", "router/utils.go"], [("handleServe", "tuna/handleserve.go:handleServe"), ("handleDownload", "tuna/handledownload.go:handleDownload"), ("cleanPath", "router/utils.go:cleanPath")], (), ["file opened", "404"])
p("C13", "Every response of the server itself carries the security headers",
  "Every file, download list, metrics page and error page the server itself produces carries the full set of strict security headers (frame, sniffing, XSS, referrer, content-security and feature policies and the server name), each with its strict default; the metrics page alone blanks the content security policy. Files and download lists carry every header configured for their site with its configured value, overriding a default of that name; only a file's Content-Type is fixed by C14. With TLS enabled all these and every proxied answer announce Strict-Transport-Security with exactly the configured lifetime and options unless a configured header of that name replaces it; without TLS the server adds no such header itself.",
  ["inputs", "configurations"], "every configured header map, TLS and HSTS setting, and every response kind",
  "No test looks at response headers; overriding ranges over every header map and spelling.",
  ["tuna/utils.go", "tuna/handleserve.go", "tuna/handledownload.go", "tuna/handleerror.go", "tuna/metrics.go", "tuna/handleproxy.go"], [("setHeaders", "tuna/utils.go:setHeaders")], (), ["response headers"])
p("C14", "Every served file has the content type its extension determines",
  "A file with one of the built-in extensions is always sent with that extension's fixed media type; any other file gets the type configured for its path if there is one and application/octet-stream otherwise. The declared type is never empty unless the configuration says so, and depends on nothing but the served path and the configuration. (In download mode a Content-Type configured as a header of the site comes first.)",
  ["inputs", "configurations"], "every path and every configured type table",
  "No test covers the mapping; it must hold for every path, including several dots, none, or dots in directories.",
  ["tuna/utils.go", "tuna/handleserve.go", "tuna/handledownload.go"], [("getMIMEType", "tuna/utils.go:getMIMEType")], (), ["Content-Type"])
p("C15", "A proxied request goes only to its host's configured upstream, unchanged",
  "A request for a host with a proxy rule is sent exactly once, to that rule's upstream and no other authority whatever its request target says, with the request's own method, body, headers, path and query, and with the original host name. If its body cannot be read, the request cannot be built or sent, the upstream answers with a status that cannot be passed on (below 100), or no rule applies, the client gets a 502 error and nothing is relayed.",
  ["inputs", "configurations", "fault_sequences"], "every request line, header set and body, every rule table, and every upstream failure",
  "No test exercises the proxy; choosing the authority must hold for every request-target string, including those a client would not normally send.",
  ["tuna/handleproxy.go", "tuna/utils.go"], [("handleProxy", "tuna/handleproxy.go:handleProxy"), ("cloneHeader", "tuna/utils.go:cloneHeader")], (), ["upstream request", "502"])
p("C16", "The upstream's answer is relayed to the client completely and unaltered",
  "When the upstream answers, the client receives that status code exactly once, every header value of the answer plus the configured proxy headers, set before the status is sent, and the answer's body; the answer's body is closed. Copying headers for the upstream request never shares storage with, changes, drops or reorders the client request's header values.",
  ["inputs", "configurations"], "every upstream response and every header map, including repeated and multi-valued headers",
  "No test relays a response; copying must be complete for every header map.",
  ["tuna/handleproxy.go", "tuna/utils.go"], [("copyHeader", "tuna/utils.go:copyHeader"), ("cloneHeader", "tuna/utils.go:cloneHeader"), ("relay", "tuna/handleproxy.go:handleProxy")], (), ["client response"])
p("C17", "A virtual host is served by its own configuration and no other's",
  "With virtual hosting enabled, a request whose host (port removed) is a configured virtual host is answered using only that virtual host's directory, index, headers, content types, downloads, error pages and proxy rules. Every other request, and every request when virtual hosting is off, is answered using the main configuration.",
  ["inputs", "configurations"], "every set of virtual hosts and every Host header",
  "No test uses virtual hosts; isolation ranges over all host names and configurations.",
  ["tuna/handleserve.go", "tuna/handledownload.go", "tuna/handleerror.go", "tuna/handleproxy.go"], [("vhost switch in each handler", "tuna/handle*.go")], (), ["which configuration an answer uses"])
p("C18", "An error answer carries its own status code, exactly once",
  "Whenever the server refuses or fails a request, the response's status is that error's code, sent exactly once, whether the body is the built-in page or the custom error page configured for that code. The custom page of the site is used exactly when one is configured for that code and can be read.",
  ["inputs", "configurations"], "every error code, configuration of error pages, and request",
  "No test provokes an error page; status and page choice range over codes, hosts and configurations.",
  ["tuna/handleerror.go"], [("HandleError", "tuna/handleerror.go:HandleError")], (), ["response status", "body"])
p("C19", "Metrics count every finished request exactly once",
  "When metrics are enabled, each answered request increases the count of its own status and host-plus-path by exactly one, and the total by exactly one, leaving every other count unchanged; when disabled nothing is recorded. Its status is the one the server decided on: the error's for an error answer, the upstream's for a relayed answer, 200 for a page or a file. This holds from any stored state the server can load at start, including an empty one.",
  ["histories", "inputs", "schedules"], "every sequence of requests, statuses and paths, from every loadable state",
  "No test touches metrics; the sum invariant ranges over all histories.",
  ["tuna/metrics.go", "tuna/log.go"], [("concat", "tuna/metrics.go:concat"), ("metricsDaemon load", "tuna/metrics.go:metricsDaemon"), ("LogNetwork", "tuna/log.go:LogNetwork")], [("TotalRequests/Paths", "counters", "tuna/metrics.go:metricsData")], ["metrics page and file"])
p("C20", "Client- or file-controlled text never reaches a page as markup",
  "In the metrics page and the download list, every piece of text that originates from a request or from a file name is HTML-escaped before it is written. Everything else written to those pages is fixed markup or a number.",
  ["inputs"], "every request path and file name",
  "No test renders these pages; escaping must hold for every string.",
  ["tuna/metrics.go", "tuna/handledownload.go"], [("display", "tuna/metrics.go:display"), ("download table", "tuna/handledownload.go:handleDownload")], (), ["page body"])
p("C21", "An accepted configuration satisfies every start-up requirement",
  "Validation returns only if a main configuration has a port, a log output, a non-negative log level, a file directory other than the root, usable certificate settings when TLS is on (automatic certificates only with names and on port 443) and non-blank virtual hosts when virtual hosting is on; a virtual host does not itself enable virtual hosting; and a proxying site has rules while a downloading or file-serving one names its directory. Validation refuses nothing else, and only ever adds a missing trailing slash to the file and download directories.",
  ["configurations"], "every configuration value",
  "No test validates a configuration; acceptance must imply the requirements for every combination of fields.",
  ["tuna/config.go"], [("Validate", "tuna/config.go:Validate")], (), ["process exit versus start"])
p("C22", "Every configured route is guarded by its own site's limiter and firewall",
  "For every configuration, each route created for a site has that site's rate limiter and, when that site's firewall is enabled, that site's firewall in front of its handler, firewall first and with that site's own rules, mode and limits. The metrics page is registered only when metrics are enabled and always behind authentication with the configured users.",
  ["configurations"], "every configuration of sites, paths, methods, proxy rules and guards",
  "No test starts a server from a configuration; the wiring ranges over every configuration.",
  ["tuna/routes.go"], [("addRoutesFromConfig", "tuna/routes.go:addRoutesFromConfig")], (), ["middleware lists of routes"])
p("C23", "The log shows exactly the messages its level admits",
  "A message is written if and only if it is not empty and its level is one of the defined levels not above the configured level, and it is written exactly once with the label of its own level. A logger with a level above the highest supported one (debug) is never created.",
  ["inputs", "configurations"], "every configured level and every message level",
  "No test uses the logger.", ["debug/log.go", "debug/logger.go"], [("Log", "debug/log.go:Log"), ("NewLogger", "debug/logger.go:NewLogger")], (), ["log output"])
p("C24", "TLS is never negotiated below 1.2 nor with a weak cipher suite",
  "For every configuration the server's TLS settings require at least TLS 1.2 and offer only forward-secret authenticated cipher suites. With automatic certificates the protocol list includes the certificate challenge protocol.",
  ["configurations"], "every TLS configuration",
  "No test builds the TLS settings.", ["tuna/tls.go"], [("httpCreateTLSConfig", "tuna/tls.go:httpCreateTLSConfig")], (), ["tls.Config"])
p("C25", "The download list shows exactly the files with an enabled extension",
  "When downloads are enabled a file below the site directory is listed if and only if its extension is one of the configured ones and it is not a directory, with its own name and size, once per configured occurrence of that extension; with downloads disabled nothing is listed. A directory that cannot be read never crashes the request.",
  ["inputs", "configurations", "fault_sequences"], "every directory tree, extension list and file-system error",
  "No test renders the list.", ["tuna/handledownload.go"], [("walk callback", "tuna/handledownload.go:handleDownload")], (), ["download page"])
p("C26", "The port of a Host header or client address never influences a decision",
  "The host name used for routing, virtual-host selection, proxying and client identification is the part before the port when the address is a well-formed host and port pair, with brackets of an IPv6 address removed, and the unchanged text otherwise.",
  ["inputs"], "every Host header and remote address",
  "TestStripHost samples two strings.", ["router/utils.go"], [("StripHostPort", "router/utils.go:StripHostPort")], (), ["routing and guard decisions"])
p("C27", "No request can crash request processing",
  "Routing, guarding, static serving, downloading, proxying, error handling and metrics never hit a run-time panic (bad index, nil dereference, write to a nil table, failed conversion) for any request, whatever the route table and configuration the server accepted.",
  ["inputs", "configurations", "histories"], "every request against every accepted configuration and reachable state",
  "The tests send a dozen well-formed requests.", ["router/router.go", "router/route.go", "guard/firewall.go", "guard/limiter.go", "guard/basicauth.go", "cache/get.go", "tuna/handleserve.go", "tuna/handleerror.go", "tuna/handleproxy.go", "tuna/metrics.go"],
  [("index and nil checks", "all request handlers")], (), ["panic in handler"])
p("C28", "The saved metrics file survives a crash at any point of a save",
  "At every instant during a periodic or final save, the metrics file on disk holds either the complete previous state or the complete new one, so that the server can always start again.",
  ["crash_points"], "every crash point during a save",
  "Tests never crash the process.", ["tuna/metrics.go"], [("flushMetrics", "tuna/metrics.go:flushMetrics")], (), ["file content after a crash"])
p("C29", "A stop signal drains running requests before the process ends",
  "After an interrupt or termination signal no new connection is accepted, running requests get up to 30 seconds to finish, enabled metrics are saved, and the process ends.",
  ["schedules", "histories"], "every arrival time of the signal relative to running requests",
  "Tests never start the server loop.", ["tuna/serve.go"], [("signal goroutine", "tuna/serve.go:Serve")], (), ["process exit"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
