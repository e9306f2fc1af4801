# Update checks and the self-update (C13 - C17, C19).

def lastFile(d: str) -> str:
    pjoin(d, "lastcheck")

def inside(d: str, p: str) -> bool:
    hasprefix(p, pclean(d) + "/") and pclean(p) == p

# ---- versions
def part(a: seq[string], k: int) -> int:
    puint(a[k]) if k < len(a) else 0

# comparison of the first n parts: 1, 0, -1
spec cmpParts(a: seq[string], b: seq[string], n: int) -> int:
    0 if n <= 0 else (cmpParts(a, b, n - 1) if cmpParts(a, b, n - 1) != 0 else (1 if part(a, n - 1) > part(b, n - 1) else (-1 if part(a, n - 1) < part(b, n - 1) else 0)))

def numeric(a: seq[string]) -> bool:
    all(puintok(a[k]) for k in range(len(a)))

def longer(a: seq[string], b: seq[string]) -> int:
    len(a) if len(a) > len(b) else len(b)

def newerThan(a: seq[string], b: seq[string]) -> bool:
    numeric(a) and numeric(b) and cmpParts(a, b, longer(a, b)) > 0

func github.isNewer(remote, current) -> r
    flag helper
    props C16
    invariant all(imp(k < _i, puintok(split(remote, ".")[k])) for k in range(len(split(remote, "."))))
    invariant all(imp(k < _i, puintok(split(current, ".")[k])) for k in range(len(split(current, "."))))
    invariant _i <= longer(split(remote, "."), split(current, "."))
    invariant iff(_b, cmpParts(split(remote, "."), split(current, "."), _i) > 0)
    invariant iff(_b, cmpParts(split(remote, "."), split(current, "."), _i) != 0)
    ensures r == newerThan(split(remote, "."), split(current, "."))

# ---- the release feed
def strOr(v: any) -> str:
    asstr(v) if isstr(v) else ""

def release() -> any:
    jelems(jsondec(feed))[0]

def relField(k: str) -> any:
    jget(release(), k) if ismap(release()) else nil()

def assetName(a: any) -> str:
    strOr(jget(a, "name")) if ismap(a) else ""

def assetUrl(a: any) -> str:
    strOr(jget(a, "browser_download_url")) if ismap(a) else ""

spec archiveOf(a: seq[any], n: int) -> str:
    "" if n <= 0 else (assetUrl(a[n - 1]) if contains(assetName(a[n - 1]), ".tar.gz") else archiveOf(a, n - 1))

spec checksumOf(a: seq[any], n: int) -> str:
    "" if n <= 0 else (assetUrl(a[n - 1]) if contains(assetName(a[n - 1]), ".md5") and not contains(assetName(a[n - 1]), ".tar.gz") else checksumOf(a, n - 1))

def assets() -> seq[any]:
    jelems(relField("assets"))

def feedHasRelease() -> bool:
    jsonok(feed) and isarr(jsondec(feed)) and len(jelems(jsondec(feed))) > 0 and not isnil(release()) and isarr(relField("assets"))

def feedReadable() -> bool:
    jsonok(feed) and (isarr(jsondec(feed)) or isnil(jsondec(feed)))

def feedNewer() -> bool:
    feedHasRelease() and newerThan(split(strOr(relField("tag_name")), "."), split("1.3.1", "."))

def infoOf(i: *domain.UpdateInfo) -> bool:
    i.Version == strOr(relField("tag_name")) and i.Changelog == strOr(relField("body")) and i.ArchiveUrl == archiveOf(assets(), len(assets())) and i.ChecksumUrl == checksumOf(assets(), len(assets()))

func githubUpdater.CheckForUpdate(self, timeout) -> info, err
    props C13, C15, C16, C17
    modifies feed, feeds
    invariant _t == archiveOf(assets(), _i)
    invariant _t == checksumOf(assets(), _i)
    ensures feeds == old(feeds) + 1
    ensures err != ErrNoUpdate
    ensures imp(err != None, info == None)
    ensures [C15,C16,C13] imp(err == None, feedReadable() and iff(info != None, feedHasRelease()))
    ensures [C15,C16,C13] imp(info != None, info.Newer == feedNewer())
    ensures [C16,C13] imp(info != None, infoOf(info))
    ensures [C15,C16] imp(err != None, faults != old(faults) or not feedReadable())
    ensures [C13] imp(err == None, faults == old(faults))

# ---- when to check
def dueAt(period: int, c: str, t: float64) -> bool:
    not pintok(trimspace(c)) or t - pint(trimspace(c)) >= period * 86400 or pint(trimspace(c)) - t >= period * 86400

func githubUpdater.ShouldCheck(self, period, dirPath) -> r
    props C15
    modifies now, ticks, clock
    requires [C15] period <= 100000
    ensures [C15] ticks > old(ticks)
    ensures [C15] imp(not exists[lastFile(dirPath)] or isdir[lastFile(dirPath)], r)
    ensures [C15] imp(faults != old(faults), r)
    ensures [C15] imp(faults == old(faults), iff(r, dueAt(period, content[lastFile(dirPath)], clock[old(ticks)])))

func githubUpdater.CheckTimestamp(self, dirPath)
    props C13, C15, C12
    requires [C13] dirPath == cfgDir()
    modifies now, ticks, clock, exists, isdir, content, mode, writes
    ensures [C15] all(imp(k < old(ticks), clock[k] == old(clock)[k]) for k in ints)
    ensures [C15] writes[lastFile(dirPath)] == old(writes[lastFile(dirPath)]) + 1
    ensures [C15] imp(faults == old(faults), exists[lastFile(dirPath)] and content[lastFile(dirPath)] == itoa(trunc(now)))
    ensures all(imp(p != lastFile(dirPath), writes[p] == old(writes)[p]) for p in strings)
    ensures all(imp(p != lastFile(dirPath) and p != dirPath, exists[p] == old(exists)[p] and isdir[p] == old(isdir)[p] and content[p] == old(content)[p] and mode[p] == old(mode)[p]) for p in strings)

# an automatic check is due now (t: the clock when it was asked)
def due(period: int, t: float64) -> bool:
    not exists[lastFile(cfgDir())] or isdir[lastFile(cfgDir())] or dueAt(period, content[lastFile(cfgDir())], t)

def completed(e: error) -> bool:
    e == None or e == ErrNoUpdate

func dfltUpdateService.CheckForUpdate(self, period, timeout, force, configDir) -> info, err
    props C12, C13, C15, C16, C17
    requires [C12,C13,C15] configDir == cfgDir()
    requires [C15] period <= 100000
    modifies feed, feeds, now, ticks, clock, exists, isdir, content, mode, writes
    ensures [C15] imp(force, feeds == old(feeds) + 1)
    ensures [C15] imp(not force and faults == old(faults), feeds == old(feeds) + (1 if was(due(period, new(clock[old(ticks)]))) else 0))
    ensures [C15] feeds == old(feeds) or feeds == old(feeds) + 1
    ensures [C15] imp(not force and feeds == old(feeds), err == ErrNoUpdate)
    ensures [C15] writes[lastFile(cfgDir())] == old(writes[lastFile(cfgDir())]) + (1 if feeds > old(feeds) and completed(err) else 0)
    ensures [C15] imp(feeds > old(feeds) and completed(err) and faults == old(faults), exists[lastFile(cfgDir())] and content[lastFile(cfgDir())] == itoa(trunc(now)))
    ensures [C15] imp(feeds > old(feeds) and faults == old(faults), iff(completed(err), feedReadable()))
    ensures [C15,C16] imp(feeds > old(feeds) and completed(err), iff(err == None, feedNewer()))
    ensures imp(err == None, info != None)
    ensures [C15,C16] imp(err == None, feedNewer())
    ensures [C16] imp(err == None, infoOf(info))
    ensures imp(err != None, info == None)
    ensures [C12] all(imp(p != lastFile(cfgDir()), writes[p] == old(writes)[p]) for p in strings)
    ensures [C13] exeSame()

func dfltUpdateFacade.CheckForUpdate(self, force) -> info, err
    props C12, C13, C15, C16, C17
    modifies feed, feeds, now, ticks, clock, exists, isdir, content, mode, writes
    requires [C15] periodIn(cfgDom(), cfgVals()) <= 100000
    ensures [C15] imp(force, feeds == old(feeds) + 1)
    ensures [C15] imp(not force and faults == old(faults), feeds == old(feeds) + (1 if was(due(periodIn(cfgDom(), cfgVals()), new(clock[old(ticks)]))) else 0))
    ensures [C15] feeds == old(feeds) or feeds == old(feeds) + 1
    ensures [C15] imp(not force and feeds == old(feeds), err == ErrNoUpdate)
    ensures [C15] writes[lastFile(cfgDir())] == old(writes[lastFile(cfgDir())]) + (1 if feeds > old(feeds) and completed(err) else 0)
    ensures [C15] imp(feeds > old(feeds) and completed(err) and faults == old(faults), exists[lastFile(cfgDir())] and content[lastFile(cfgDir())] == itoa(trunc(now)))
    ensures [C15] imp(feeds > old(feeds) and faults == old(faults), iff(completed(err), feedReadable()))
    ensures [C15,C16] imp(feeds > old(feeds) and completed(err), iff(err == None, feedNewer()))
    ensures imp(err == None, info != None)
    ensures [C15,C16] imp(err == None, feedNewer())
    ensures [C16] imp(err == None, infoOf(info))
    ensures imp(err != None, info == None)
    ensures [C12] all(imp(p != lastFile(cfgDir()), writes[p] == old(writes)[p]) for p in strings)
    ensures [C13] exeSame()

func cobraCliControl.CheckForUpdate(self)
    props C15, C12, C17, C07, C08, C18
    modifies out, feed, feeds, now, ticks, clock, exists, isdir, content, mode, writes
    requires [C15] periodIn(cfgDom(), cfgVals()) <= 100000
    ensures [C15] imp(not notifyIn(cfgDom(), cfgVals()), feeds == old(feeds) and writes[lastFile(cfgDir())] == old(writes[lastFile(cfgDir())]))
    ensures [C15] imp(faults == old(faults), feeds == old(feeds) + (1 if notifyIn(cfgDom(), cfgVals()) and was(due(periodIn(cfgDom(), cfgVals()), new(clock[old(ticks)]))) else 0))
    ensures [C15] imp(faults == old(faults), writes[lastFile(cfgDir())] == old(writes[lastFile(cfgDir())]) + (1 if feeds > old(feeds) and feedReadable() else 0))
    ensures [C15] imp(feeds == old(feeds) or not feedNewer(), out == old(out))
    ensures [C12] all(imp(p != lastFile(cfgDir()), writes[p] == old(writes)[p]) for p in strings)

# ---- the self-update
# environment: the installed program is not in the update cache and is not one of the configuration files
axiom exeElsewhere:
    not hasprefix(exePath, "/tmp/1pass/") and exePath != "/tmp/1pass" and exePath != cfgDir() and exePath != cfgFile() and exePath != lastFile(cfgDir())

def exeSame() -> bool:
    exists[exePath] == old(exists[exePath]) and isdir[exePath] == old(isdir[exePath]) and content[exePath] == old(content[exePath]) and mode[exePath] == old(mode[exePath])

def sameOutside(q: str) -> bool:
    all(imp(p != q and not hasprefix(p, q + "/"), exists[p] == old(exists)[p] and isdir[p] == old(isdir)[p] and content[p] == old(content)[p] and mode[p] == old(mode)[p]) for p in strings)

func githubUpdater.DownloadFile(self, destination, url, timeout) -> err
    props C13, C17
    requires [C13] destination != exePath
    modifies exists, isdir, content, mode, served, feeds
    ensures imp(err == None, exists[destination] and not isdir[destination] and content[destination] == served[url])
    ensures all(imp(p != destination, exists[p] == old(exists)[p] and isdir[p] == old(isdir)[p] and content[p] == old(content)[p] and mode[p] == old(mode)[p]) for p in strings)
    ensures all(imp(u != url, served[u] == old(served)[u]) for u in strings)
    ensures iff(err == None, faults == old(faults))

# the sum published in a checksum file
def sumIn(c: str) -> str:
    fields(trimspace(c))[0] if len(fields(trimspace(c))) > 0 else ""

def md5hex(c: str) -> str:
    hexenc(hash("md5", c))

def matchesSum(b: str, c: str) -> bool:
    len(fields(trimspace(c))) > 0 and fields(trimspace(c))[0] == md5hex(b)

func githubUpdater.ValidateChecksum(self, binary, file) -> err
    props C13, C17
    ensures [C13] imp(err == None, exists[binary] and matchesSum(content[binary], content[file]) and faults == old(faults))
    ensures [C13] imp(faults == old(faults), iff(err == None, matchesSum(content[binary], content[file])))

# ---- extraction
def isReg(a: str, k: int) -> bool:
    tartype(a, k) == 48

def target(a: str, k: int, d: str) -> str:
    pjoin(d, tarname(a, k))

def landsOutside(a: str, k: int, d: str) -> bool:
    isReg(a, k) and not inside(d, target(a, k, d))

# the last of the first n entries that is a regular file with this path, or -1
spec lastFor(a: str, p: str, d: str, n: int) -> int:
    0 - 1 if n <= 0 else (n - 1 if isReg(a, n - 1) and target(a, n - 1, d) == p else lastFor(a, p, d, n - 1))

# a path some entry of the first n has holds the content of the last such entry
def extracted(a: str, p: str, d: str, n: int) -> bool:
    imp(lastFor(a, p, d, n) >= 0, content[p] == tarbody(a, lastFor(a, p, d, n)))

func githubUpdater.ExtractArchive(self, src, dst) -> err
    props C13, C14, C17
    requires dst != "" and not inside(dst, src)
    requires [C13] not inside(dst, exePath)
    modifies exists, isdir, content, mode
    invariant [C13,C14] all(imp(not inside(dst, p), exists[p] == old(exists)[p]) for p in strings)
    invariant [C13,C14] all(imp(not inside(dst, p), isdir[p] == old(isdir)[p]) for p in strings)
    invariant [C13,C14] all(imp(not inside(dst, p), content[p] == old(content)[p]) for p in strings)
    invariant [C13,C14] all(imp(not inside(dst, p), mode[p] == old(mode)[p]) for p in strings)
    ensures [C13,C14] all(imp(not inside(dst, p), exists[p] == old(exists)[p] and isdir[p] == old(isdir)[p] and content[p] == old(content)[p] and mode[p] == old(mode)[p]) for p in strings)
    invariant [C14] tararch(_p) == gunzip(old(content)[src]) and tarpos(_p) >= 0 and tarpos(_p) <= tarn(gunzip(old(content)[src]))
    invariant [C13,C14] faults == old(faults)
    invariant [C14] all(imp(isReg(tararch(_p), k), inside(dst, target(tararch(_p), k, dst))) for k in range(tarpos(_p)))
    invariant [C14] all(imp(isReg(tararch(_p), k), exists[target(tararch(_p), k, dst)] and not isdir[target(tararch(_p), k, dst)]) for k in range(tarpos(_p)))
    invariant [C14] all(extracted(tararch(_p), p, dst, tarpos(_p)) for p in strings)
    ensures [C14] imp(err == None, all(imp(isReg(gunzip(old(content)[src]), k), inside(dst, target(gunzip(old(content)[src]), k, dst))) for k in range(tarn(gunzip(old(content)[src])))))
    ensures [C14] imp(err == None, all(imp(isReg(gunzip(old(content)[src]), k), exists[target(gunzip(old(content)[src]), k, dst)] and not isdir[target(gunzip(old(content)[src]), k, dst)]) for k in range(tarn(gunzip(old(content)[src])))))
    ensures [C14] imp(err == None, all(extracted(gunzip(old(content)[src]), p, dst, tarn(gunzip(old(content)[src]))) for p in strings))
    ensures [C14] imp(err == None, gzok(old(content)[src]) and tarok(gunzip(old(content)[src])) and faults == old(faults))
    ensures [C14] imp(err != None and faults == old(faults), not gzok(old(content)[src]) or not tarok(gunzip(old(content)[src])) or any(landsOutside(gunzip(old(content)[src]), k, dst) for k in range(tarn(gunzip(old(content)[src])))))
    ensures [C13] imp(err == None, faults == old(faults))

# the checksum published with the release last reported by the feed
def published() -> str:
    served[checksumOf(assets(), len(assets()))]

def consent() -> bool:
    len(answers) > 0 and tolower(answers[len(answers) - 1]) == "y"

# the installed program is a file with the published checksum of a newer release, and the user agreed
def installed() -> bool:
    exists[exePath] and consent() and feedNewer() and matchesSum(content[exePath], published())

func githubUpdater.ReplaceBinary(self, src) -> err
    props C13
    requires [C13] consent() and feedNewer() and matchesSum(content[src], published()) and src != exePath
    modifies exists, isdir, content, mode
    ensures imp(err == None, exists[exePath] and content[exePath] == old(content[src]))
    ensures imp(err != None, exeSame())
    ensures iff(err == None, faults == old(faults))

func dfltUpdateService.Update(self, timeout, stage) -> err
    props C13, C17
    requires [C13] consent()
    callback stage: $out
    modifies out, feed, feeds, served, exists, isdir, content, mode
    ensures [C13] exeSame() or installed()
    ensures [C13] imp(err == None, installed())
    ensures [C13] imp(faults != old(faults), err != None)
    ensures [C13] imp(err != None, exeSame() or faults == old(faults) + 1)

func dfltUpdateFacade.Update(self, stage) -> err
    props C13, C17
    requires [C13] consent()
    callback stage: $out
    modifies out, feed, feeds, served, exists, isdir, content, mode
    ensures [C13] exeSame() or installed()
    ensures [C13] imp(err == None, installed())
    ensures [C13] imp(faults != old(faults), err != None)
    ensures [C13] imp(err != None, exeSame() or faults == old(faults) + 1)

func cobraCliControl.Update(self)
    props C13
    modifies out, answers, feed, feeds, served, now, ticks, clock, exists, isdir, content, mode, writes, exitcode
    mayexit
    ensures [C13] installed()
    onexit [C13] exitcode != 0
    onexit [C13] exeSame() or installed()
