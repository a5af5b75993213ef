#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed properties.
import json, sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
CLAIMED={
'C01':'router.ServeHTTP is proved to run, for every table, host, path, method and content type, exactly the handler the selection rule names; the lock invariants are proved at every registration.',
'C02':'Every path of router.ServeHTTP that refuses is proved to call the error handler once with the one right status and to run no handler; the default error handler is proved to answer with that status.',
'C03':'The content-type decision (router.contentAllowed inlined or by its proved summary) is proved equivalent to the declaration rule for every declaration and header value.',
'C04':'The path written to the request before any handler runs is proved to be the canonical path; path.Clean is a trusted pure function.',
'C05':'The composed handler is proved equal to the fold of all middleware of the selected route in registration order, for every length.',
'C06':'AddRoute and UseMiddleware are proved to change the addressed entry as stated and to leave every other entry as it was (frame), and to abort only for the stated refusals.',
'C07':'BlockHTTP and BlockProxy are proved, for every rule table, path and client, to serve exactly the clients the listing rule admits and to refuse the others once with 403.',
'C08':'Authenticate is proved to serve exactly the requests that carry registered credentials and to refuse all others with 401 and a realm; SimpleBasicAuth is proved to register exactly the given users. sha256 is assumed collision-free.',
'C09':'LimitHTTP is proved to look up, create and retain the bucket of the client inside one critical section, to draw one token from it and to serve or refuse by the outcome; the token arithmetic of x/time/rate is trusted.',
'C10':'Get, Set and Find are proved, for every state of the ring (any fill level and cursor), against a specification over entry distance: newest entry decides, expiry by age, and every other key keeps its entry except the oldest slot.',
'C26':'StripHostPort is proved equal to the host part of net.SplitHostPort (trusted) for every string, and every dispatch decision uses it.',
'C12':'handleServe and handleDownload are proved to open exactly site directory + request path (+ index), only after a successful Stat of that very name, and to answer 404 otherwise; the router is proved to hand handlers canonical paths only, so the name stays below the directory.',
'C13':'setHeaders is proved to set every default, the HSTS value and every configured header for every header map; at every point where an answer is sent the proved header state is asserted.',
'C14':'getMIMEType is proved equal to the type table for every path and configuration, and Content-Type is proved to have that value whenever a file is served.',
'C15':'At the single RoundTrip call handleProxy is proved to pass the rule\'s authority, the request\'s target, method, body, headers and host; every other way out is proved to answer 502. url.Parse and RequestURI are trusted.',
'C16':'cloneHeader and copyHeader are proved to copy every value in order without shared storage; the order copy, configured headers, status, body, close is proved on every path that relays.',
'C17':'Every handler is proved to take directory, index, headers, types, downloads, error pages and rules from the configuration the host selects, for every set of virtual hosts.',
'C18':'HandleError is proved to send its status exactly once before any body and to choose between the custom and the built-in page as stated, for every code and configuration.',
'C19':'Every handler is proved to count the request exactly once with the status it decided; concat is proved to change exactly that count and the total, within one critical section.',
'C20':'Every text written to the metrics page and every text put into the download page is proved to be fixed markup, a number or the result of the escaping function.',
'C21':'Validate is proved to return exactly when the start-up requirements hold and to change nothing but the two missing slashes, for every configuration.',
'C22':'addRoutesFromConfig is proved, for every configuration, to follow each registered route by its own site\'s firewall (if enabled) and limiter with that site\'s settings, and the metrics route by authentication with the configured users.',
'C23':'Log and NewLogger are proved against the level table for every level and message.',
'C11':'Every read and write of a guarded field or table (routes, cache shards, metrics, limiter buckets) in the code of the repository carries the obligation that its lock is held in the right mode; every return of every function under contract carries the obligation that no lock is still held, every Lock that it is not held already, and every function that touches a guarded field must be reached by a contract. Code outside the repository is assumed not to touch the guarded state except through its arguments.',
'C27':'Every index, nil dereference, nil-table write, conversion and explicit panic reachable in the request handlers, the router, the guards, the cache, logging and metrics carries an obligation; all are discharged for every request, configuration and lock-guarded state. Panics inside the standard library are excluded by the preconditions of its trusted contracts.',
'C25':'handleDownload is proved, for every file tree, list of extensions and any row, to put that row on the page exactly as often as the walk meets a file (not a directory) with an enabled extension that it shows, in a single pass per extension that no file ends early. The order and completeness of filepath.Walk are trusted.',
'C24':'The TLS settings are proved, for every configuration, to require TLS 1.2 and list only the allowed suites, at their creation and again at the call that starts the listener.',
'C28':'flushMetrics is proved, with a ghost model of the files it touches, to leave the metrics file alone except for one rename of a temporary file that holds the complete encoding, was written and synced without error and has a name of its own; the crash points are all points between two file operations. The daemon and the stop path are proved not to touch it otherwise. Atomicity of rename is trusted.',
'C29':'Serve is proved to start the signal goroutine before it listens, with the server of the router, and neither to return nor to panic once the listener was closed by a shutdown; every goroutine it starts is proved to end the process only after a signal, one Shutdown of that server with an uncancelled context of 30 seconds and a save of enabled metrics, and to end it after every signal it receives. That Shutdown drains is trusted (net/http).',
}
NA={
}
COMMON=' All obligations are generated from /repo\'s current source on every run. Assumed: contracts of the standard library, mathematical integers for signed arithmetic, termination; see evidence and DESIGN.md.'
checks=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append({'property':i,'quick_cmd':'./run.sh '+i,'thorough_cmd':'./run.sh '+i,'evidence_file':f'evidence/{i}.json',
          'technique':'contract-based deductive verification of the Go source (gvc: symbolic execution over go/ssa, SMT)','level':'proof','level_note':CLAIMED[i]+COMMON})
na=[{'property':p['id'],'reason':NA.get(p['id'],'no contract for it has been discharged yet')} for p in props if p['id'] not in CLAIMED]
m={'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':na,'notes':'run.sh PROPERTY verifies every contract the property rests on; contracts/*.gvc are the specifications, gvc/ the verifier, replay/ the executable oracles used to find a concrete input after an obligation failed.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
