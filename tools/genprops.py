#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the table is the source)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    P.append(d)
PKI="validator/pki/pki.go"; L="validator/lib/"; S="sync/lib/"; O="cmd/octorpki/"
p("C01","A certificate is accepted only after full path validation",
 "A certificate (CA or EE) is reported valid, and becomes usable as an issuer, only if at the validator's configured time it is inside its validity window and either it was submitted as a trust anchor, or its issuer is currently valid, its signature verifies under that issuer's certificate, it is not on the issuer's revocation list, and it holds no resource its issuers lack. A certificate whose key identifier is already known is refused and never replaces or validates the earlier one. A certificate that fails any of these steps is never reported valid.",
 ["inputs","histories"],"every certificate, every state of the validator when it is added, every order in which objects arrive",
 "TestPKI walks one consistent repository; each rejection reason, and each combination of reasons with each state of the object tables, needs its own input.",
 [PKI,L+"cert.go"],[("certificate gate","pki.(*Validator).AddCert / ValidateCertificate"),("signature","(*RPKICertificate).Validate -> x509 CheckSignatureFrom")],
 [("ValidObjects","certificates currently valid, by subject key id",PKI),("Revoked","issuer key id + serial of revoked certificates",PKI)],["(*Validator).AddCert result","Validator.ValidObjects"])
p("C02","Validity windows are checked at the configured time, bounds included",
 "A certificate or ROA is within its validity window exactly when notBefore <= T <= notAfter, and a manifest is current exactly when thisUpdate <= T <= nextUpdate, where T is the time configured on the validator. The decision never depends on the wall clock once the validator's time has been set.",
 ["inputs","configurations"],"every configured time and every window, including T equal to a bound and windows entirely in the past or future",
 "Tests use one time inside every window; a swapped, inverted or strict comparison, or a read of the wall clock, agrees with them.",
 [PKI,L+"cert.go",L+"roa.go"],[("window check","(*RPKICertificate).ValidateTime"),("ROA window check","(*RPKIROA).ValidateTime"),("manifest staleness","(*SimpleManager).Explore")],
 [("Validator.Time","time at which everything is validated",PKI)])
p("C03","No certificate is valid with resources its issuers do not hold",
 "A non-trust-anchor certificate is accepted only if each of its address ranges and AS ranges lies, with both its ends, inside a range of its issuer, or, where the issuer inherits, inside the nearest ancestor that does not. A resource that is still unresolved when the chain of ancestors ends makes the certificate invalid, addresses and AS numbers being judged by the same rule.",
 ["inputs","histories"],"every set of address/AS resources and every depth and mix of inheriting ancestors",
 "The tests have one shallow chain without inheritance across several levels, and one over-claim at most.",
 [PKI,L+"cert.go"],[("per-level containment","ValidateIPCertificateList / ValidateASNCertificateList, IsIPRangeInCertificate / IsASRangeInCertificate"),("ancestor walk","(*Validator).ValidateCertificate")],
 None,["(*Validator).ValidateCertificate error"])
p("C04","Only the TAL's key can make a trust anchor",
 "A self-standing certificate is trusted without an issuer only when it was discovered through a TAL and its public key equals, in algorithm and value, the key in that TAL. No file listed in a manifest or published in a repository can obtain trust-anchor treatment.",
 ["inputs","histories"],"every TAL, every certificate and every way a file can be queued for validation",
 "Tests load one TAL with its matching certificate; nothing submits a certificate with another key or reaches trust from a manifest.",
 [PKI,L+"tal.go"],[("key comparison","(*RPKITAL).CheckCertificate"),("TAL gate","(*Validator).AddResource"),("trust flag","(*Validator).AddTAL")],
 [("PKIFile.Trust","file is to be accepted as a trust anchor",PKI)])
p("C05","Signed objects are intact only if digest and signature verify",
 "A ROA, manifest or signed XML message is marked intact only if the digest attribute in its signed attributes equals the SHA-256 of exactly the content that was decoded, and the signature over those signed attributes verifies under the public key of the certificate embedded in the same object. With strict decoding on, an object whose algorithm identifiers do not match its certificate's is refused.",
 ["inputs","configurations"],"every encoded object: any content, attribute set, signature bytes, key and strictness setting",
 "Tests decode objects produced by the encoder; only a forged or altered object shows a missing comparison, and there are endlessly many alterations.",
 [L+"cms.go",L+"roa.go",L+"manifest.go",L+"xml.go"],[("CMS check","(*CMS).Validate"),("strict check","(*CMS).CheckSignaturesMatch"),("decoders","DecodeROA / DecodeManifest / DecodeXML")],
 [("InnerValid","signature and digest verified",L+"roa.go")])
p("C06","Every published ROA payload is authorised by a valid, well-formed ROA",
 "A ROA counts as valid only if its certificate is valid, its signed content is intact, and every entry has prefix length <= max length <= 32 (IPv4) or 128 (IPv6). A prefix is published only as part of a valid ROA and only if its whole range lies inside the resources of the ROA's own certificate, with the ROA's AS number (0..2^32-1), that entry's prefix and max length, and the trust anchor it was found under.",
 ["inputs","histories"],"every ROA content and every combination of certificate, signature and entry defects",
 "The tests validate single hand-picked entries and one good ROA; payload generation in the server has no test.",
 [PKI,L+"roa.go",O+"octorpki.go"],[("entry bounds","(*ROAEntry).Validate / (*RPKIROA).ValidateEntries"),("prefix authorisation","ValidateIPRoaCertificateList"),("ROA gate","(*Validator).AddROA"),("payload generation","cmd/octorpki generateROAList")],
 [("ValidROA","ROAs currently valid",PKI)])
p("C07","File lists come only from valid manifests and stay inside the repository",
 "A manifest counts as valid only if its certificate is valid and its signed content is intact. Every file taken from a manifest is validated with the hash, name and type the manifest states for it and is resolved inside that manifest's repository, and a manifest naming any file that steps into a parent directory is refused as a whole.",
 ["inputs"],"every manifest content, including hostile file names and defects in the signed object",
 "Tests only encode and decode a benign manifest.",
 [PKI,L+"manifest.go"],[("manifest gate","(*Validator).AddManifest"),("file list","ExtractPathManifest"),("path resolution","(*PKIFile).ComputePath")],
 [("ValidManifest","manifests currently valid",PKI)])
p("C08","Files that contradict or are missing from their manifest are never validated",
 "With hash checking on, a file whose content hash differs from the hash in its manifest is never passed on to validation. With strict manifests on, a listed file that is missing, unreadable or has the wrong hash invalidates the CA that issued the manifest, and with hash checking on a manifest used outside its validity period invalidates that CA as well.",
 ["inputs","histories","configurations"],"every manifest, every set of present/missing/altered files and both settings of each option",
 "The test repository is complete and the test reader supplies no hashes, so the comparison never runs.",
 [PKI],[("manifest enforcement","(*SimpleManager).Explore"),("CA invalidation","(*SimpleManager).InvalidateManifestParent / InvalidateCRLParent")],None,["Explore: calls of AddResource and InvalidateObject"])
p("C09","Revocation lists take effect exactly when signed by a currently valid issuer",
 "A CRL changes validation state only if its issuer is currently valid and the CRL's signature verifies under that issuer's certificate; then every listed serial of that issuer is refused from then on, and certificates already accepted under it are invalidated. A CRL never affects certificates of another issuer, and one that fails these checks changes nothing but the record of having been seen.",
 ["inputs","histories"],"every CRL, every revoked list, and CRL/certificate arrival in either order",
 "The test CRL is well signed and revokes nothing that the test then re-adds.",
 [PKI],[("CRL gate","(*Validator).AddCRL"),("revocation lookup","(*Validator).ValidateCertificate")],
 [("Revoked / CertsSerial / ValidCRL","revocation tables keyed by issuer key id (and serial)",PKI)])
p("C10","Invalidating a certificate removes everything accepted under it",
 "When a certificate is invalidated, it and every certificate, ROA, manifest and CRL accepted beneath it, at any depth, stop being reported valid before the operation returns. The operation ends on every object graph, including cyclic ones, and touches nothing outside that subtree.",
 ["histories","inputs"],"every object graph reachable by adding objects in any order",
 "No test invalidates anything below the first level or checks all the tables afterwards.",
 [PKI],[("transitive removal","(*Validator).InvalidateObject")],[("Valid* tables","objects reported valid",PKI),("Childs","objects accepted under a certificate",PKI)])
p("C11","Nothing from the network is stored outside the cache directory",
 "For any URL or file name received from a repository, trust anchor or RRDP server, files and directories are created or overwritten only strictly inside the configured cache directory. A name that would escape it, or that is not an rsync URL, is refused with an error and neither creates anything nor stops the process.",
 ["inputs"],"every URL/file name, in particular ones with '..' components, empty components, or another scheme",
 "Tests convert a few benign URLs and never write.",
 [O+"octorpki.go",S+"rsync.go",S+"utils.go"],[("RRDP/TAL write","WriteRsyncFileOnDisk"),("rsync target","fetchRsync / RunRsync"),("URL splitting","ExtractFilePathFromRsyncURL, ExtractRsyncDomainModule")])
p("C12","An RRDP server can only publish objects of the domain it was bound to",
 "An object received over RRDP is stored only if its URI begins with the rsync domain that validated certificates bound to that RRDP URL; otherwise it is dropped. Once bound, an RRDP URL is never rebound to a different domain.",
 ["inputs","histories"],"every published URI and every sequence of certificates naming the same RRDP URL",
 "There is no test of the RRDP callback or of the binding.",
 [O+"octorpki.go",S+"rrdp.go"],[("publisher confinement","ReceiveRRDPFileCallback"),("binding","mainValidation / setRRDPDomain")],[("rrdpFetchDomain","RRDP URL -> rsync domain",O+"octorpki.go")])
p("C13","RRDP state advances only after a complete, contiguous, error-free update",
 "After an RRDP fetch the remembered session and serial change only if the fetch succeeded, and every error from downloading, parsing, decoding or storing an element is reported by the fetch. The snapshot is used on first contact, on a session change or when the deltas do not reach back to the known serial; otherwise deltas are applied one by one in increasing serial order with none skipped, and the new serial is the last one applied. The state kept for later runs is updated only after success.",
 ["inputs","fault_sequences","histories"],"every notification/snapshot/delta content and every point of failure in a fetch",
 "No test runs an RRDP fetch.",
 [S+"rrdp.go",O+"octorpki.go"],[("fetch","(*RRDPSystem).FetchRRDP"),("persisted state","cmd/octorpki fetchRRDP")],[("RRDPSystem.Serial/SessionID","last applied state",S+"rrdp.go")])
p("C14","RRDP documents are applied only if they match the notification",
 "Snapshot and delta files are applied only if they parse as an RRDP snapshot or delta document and their SHA-256 equals the hash stated for them in the notification file. Anything else makes the fetch fail before any of their objects are stored.",
 ["inputs","fault_sequences"],"every snapshot/delta body, including truncated, replaced and empty ones",
 "No test runs an RRDP fetch.",
 [S+"rrdp.go"],[("document check","(*RRDPSystem).FetchRRDP"),("parser","ParseNode / ParseRoot")])
p("C15","Every network operation is bounded in time and size and released",
 "Each HTTP request made by the validator and its tools uses a client with a timeout, its response body, where the repository reads it, is read through a size limit and closed on every path, and a non-200 reply is never taken as data. Each rsync run has a deadline and its process is always waited for.",
 ["inputs","fault_sequences"],"every peer behaviour: silence, endless bodies, error statuses, and every exit path",
 "Tests never contact a peer.",
 [S+"rrdp.go",S+"rsync.go",O+"octorpki.go",O+"ct.go","cmd/ctrpki/ctrpki.go","sync/api/fetch.go"],[("HTTP fetch","(*HTTPFetcher).GetXML, getHTTP"),("rsync run","RunRsync")])
p("C16","rsync is used for a repository unless its RRDP fetch succeeded",
 "Every repository registered for fetching is fetched by rsync in a round unless an RRDP fetch for it succeeded in that round, failover is disabled, or the RRDP reply was refused for its size. A failed RRDP fetch with failover enabled leaves the rsync job in place.",
 ["fault_sequences","configurations"],"every RRDP outcome and setting of the failover option",
 "No test reaches the failover decision.",
 [O+"octorpki.go"],[("failover decision","fetchRRDP / rrdpError")],[("rsync job table","repositories to fetch by rsync this round",O+"octorpki.go")])
p("C17","Fetch workers drain all jobs, are joined, and never exceed the configured number",
 "In each round every queued RRDP or rsync job is handed to exactly one worker, the round continues only after all workers have finished, and no more than the configured number of retrievals run at once. No job is sent after the queue is closed and the queue is closed exactly once.",
 ["schedules"],"every interleaving of the producer and the workers",
 "No test starts the workers, and a test would see only a few schedules.",
 [O+"rrdp_fetcher.go",O+"rsync_fetcher.go",O+"octorpki.go"],[("worker pools","newRRDPFetcher / newRsyncFetcher and their worker, fetch, done, wait")])
p("C18","State shared between the main loop, workers and HTTP handlers is always locked",
 "Every field of the server that is written after start-up and used by more than one of the main loop, the fetch workers and the HTTP handlers is accessed only while holding its lock or through an atomic type, writers holding it exclusively. Every lock taken is released on every path, none is taken while already held, and locks nest in one global order, and none is held while waiting for the network or a client.",
 ["schedules"],"every interleaving of the main loop, the fetch workers and concurrent HTTP requests",
 "No test runs the server concurrently; the race detector would judge only the schedules it sees.",
 [O+"octorpki.go",O+"rrdp_fetcher.go",O+"rsync_fetcher.go"],[("locks","OctoRPKI.*Mu, rsyncFetchJobManager, InfoAuthoritiesLock")])
p("C19","ROA and resource data are not served before a stable validation",
 "While waiting for stability is enabled, requests for the ROA list or the resource list are answered 503 without any data unless the current or the previous state is stable; otherwise they are answered with the last computed list. The health endpoint answers 200 exactly when the current or previous state is stable and 503 otherwise.",
 ["histories","configurations","schedules"],"every combination of current stability, previous stability and the wait option",
 "The HTTP handlers have no tests.",
 [O+"octorpki.go"],[("serving gate","ServeROAs / ServeResources / ServeHealth")])
p("C20","The published list is signed over exactly what is published",
 "When signing is enabled, the signature attached to the ROA list is computed after its entries, counts, generation and validity times are final, and nothing of the list is changed between signing and publication except the signature fields themselves. A list being served is never modified in place.",
 ["inputs","configurations","schedules"],"every ROA set and option setting",
 "List generation and signing have no test.",
 [O+"octorpki.go"],[("list generation","generateROAList / signROAList / setROAList")])
p("C21","The published list has no duplicates and, when filtering, no over-long prefixes",
 "The published list never contains two identical entries. With filtering on it contains no IPv4 prefix longer than /24 and no IPv6 prefix longer than /48, and every other valid payload remains in the list unchanged.",
 ["inputs","configurations"],"every list of payloads and both settings of the filter option",
 "TestFilter has one list of examples; boundary prefixes, duplicates at a distance and the wiring into the server are not covered.",
 [O+"filter.go",O+"octorpki.go"],[("filters","FilterInvalidPrefixLen / FilterDuplicates / filterDuplicates"),("wiring","generateROAList")])
p("C22","Validation of any repository terminates",
 "In manifest-driven exploration each distinct file path is queued and validated at most once per run, so exploration ends on every repository graph, including self-referencing and cyclic ones. The server declares a state stable at the latest in the round after the configured number of rounds, so an ever-growing repository cannot keep it unstable forever, and the round counter restarts only after a stable state.",
 ["inputs","histories"],"every graph of repository references and every growth pattern of a repository",
 "Only finite, acyclic sample repositories can be tested.",
 [PKI,O+"octorpki.go",L+"tal.go"],[("explore-once","PutFiles / GetNextFile / ExploreAdd"),("round bound","validationLoop, -max.iterations")])
p("C23","No downloaded or local object can crash the validator",
 "Decoding and validating any byte string as a TAL, certificate, CRL, ROA, manifest, signed XML message, BER structure or RRDP document returns a result or an error. It never panics (out-of-range access, nil dereference, failed type assertion, unbounded recursion) and never terminates the process.",
 ["inputs"],"every byte string for every object type, and every state of the validator when the object is added",
 "Tests decode well-formed objects; the crashing inputs found in the past (see the GHSA notes in the code) were all outside them.",
 [L+"ber.go",L+"cms.go",L+"cert.go",L+"roa.go",L+"manifest.go",L+"tal.go",L+"xml.go",PKI,S+"rrdp.go"],[("decoders","Decode* / BER2DER / ParseNode / ParseRoot"),("object admission","(*Validator).AddResource")])
p("C24","A file that is not available is handled as absent, never used",
 "When the local store has no data for a file it returns either an error or an explicit 'nothing'; every user of the store checks for both before using the data. A missing or unreadable file is skipped or reported and never crashes the server, the tools or the CT submission.",
 ["fault_sequences","inputs"],"every pattern of missing and unreadable files at every place the store is read",
 "The tests never make a file disappear between validation and output.",
 [S+"fetch.go",PKI,O+"octorpki.go",O+"ct.go","cmd/ctrpki/ctrpki.go"],[("store","(*LocalFetch).GetFile / GetFileConv"),("users","Explore, generateROAList, SendCertificateTransparency, ctrpki")])
p("C25","Route origin validation gives the RFC 6811 answer",
 "A route is Valid if at least one covering ROA has its origin AS and a max length not shorter than the route's prefix length, Invalid if it is covered but no ROA matches, and NotFound if nothing covers it, whatever the order of the ROAs. A Valid outcome is never downgraded and all covering ROAs are returned.",
 ["inputs"],"every ROA set, in every order, and every route",
 "TestValid/TestInvalid/TestUnknown use one small set and order.",
 ["ov/ov.go"],[("state machine","curValidation.Filter"),("lookup","(*OriginValidator).Validate, NewOV")])
p("C26","The local store reads the mapped file and hashes the bytes on disk",
 "A file or directory requested by its URI is read from the location given by the directory mapping and nowhere else. The SHA-256 returned for it is computed over the raw bytes read from disk, before any conversion, and returned with the converted data of the same read.",
 ["inputs","configurations"],"every mapping, path and file content (DER and BER)",
 "TestGetLocalPath tests the string mapping only.",
 [S+"fetch.go"],[("read","FetchFile / GetFileConv / GetRepository")])
p("C27","Operator options reach the mechanism they control",
 "The strictness options (manifest completeness, hash checking, CMS strictness), the RRDP, failover, timeout, concurrency, filter, signing, wait and iteration options take effect as documented: each option's value, with unchanged sense, is what the corresponding mechanism uses, and security options default to their documented value.",
 ["configurations"],"every combination of option values",
 "Tests never set the command-line options.",
 [O+"octorpki.go",O+"ct.go","cmd/localrpki/localrpki.go"],[("options","flag variables and their uses in main, mainValidation, generateROAList, doRRDP, fetchRsync")])
p("C28","Validator instances are independent of each other",
 "Configuring or running one validator, decoder or fetcher never changes the behaviour of another one in the same process. No library function modifies process-wide state after initialisation.",
 ["histories","schedules"],"every number of instances and every interleaving of their use",
 "Each test uses one instance at a time.",
 [PKI,L+"roa.go",L+"ber.go",S+"rrdp.go","ov/ov.go"],[("constructors","NewValidator, NewSimpleManager, NewLocalFetch, NewOV"),("package variables","validator/lib, validator/pki, sync/lib, ov, ca, api/schemas")])
p("C29","No error is lost on the validation and synchronisation paths",
 "In the validation and synchronisation code, an error returned by decoding, verification, file, network or process operations is returned, reported or acted upon; it is never overwritten or ignored while the result it qualifies is used. The few results used despite an ignored error are listed with the reason.",
 ["inputs","fault_sequences"],"every failing operation at every call site",
 "Tests take the success path; an unchecked error changes nothing there.",
 [L+"roa.go",L+"manifest.go",L+"xml.go",L+"cms.go",L+"cert.go",S+"rrdp.go",S+"rsync.go",S+"fetch.go",O+"octorpki.go"],[("error results","every call returning an error in validator/, sync/ and cmd/octorpki")])
p("C30","A state is declared stable only when the last round discovered nothing new",
 "A validation round is declared stable only when it is not the first and found no repository that was unknown before it (or the iteration limit was reached). In one-off mode output is written only for a stable round, unless waiting is disabled, and the process ends only after a stable round.",
 ["histories","configurations"],"every sequence of rounds and repository changes, and every option setting",
 "The main loop has no test.",
 [O+"octorpki.go"],[("change detection","MainReduce"),("loop","validationLoop")])
p("C31","The resource list reports every resource of every valid object",
 "Every kind of address and AS resource a certificate can hold (prefix, range, single AS, inherited) appears in the published resource list with its own values, and every valid certificate, ROA and manifest yields exactly one record carrying its own identifiers, path and validity times.",
 ["inputs"],"every valid object and every kind of resource it can hold",
 "Resource list generation has no test.",
 [O+"octorpki.go","api/schemas/schemas.go",L+"cert.go"],[("resource list","generateROAList type switches")])
p("C32","Encoding and decoding RPKI objects are inverse",
 "Any object the library encodes decodes to the same value, and converting a BER structure to DER preserves its content.",
 ["inputs"],"every encodable object and every BER structure",
 "Tests round-trip a few objects.",
 [L+"ber.go",L+"roa.go",L+"cert.go",L+"manifest.go",L+"tal.go"],[("codecs","Encode*/Decode*, BER2DER")])
p("C33","Every object published in a reachable repository is eventually validated",
 "If repositories stop changing and stay reachable, the server eventually reaches a stable state in which every valid ROA they publish is in the served list.",
 ["histories","fault_sequences"],"every repository content and every finite sequence of failures",
 "It is a liveness statement over unbounded histories.",
 [O+"octorpki.go",PKI],[("main loop","validationLoop")])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
