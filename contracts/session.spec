# The session: validation, unlocking, locking, loading (C01, C03, C10, C18).

# environment: the vault's files have the shape the OPVault format gives them
def wfEntry(v: any) -> bool:
    ismap(v) and isjson(v) and isflt(jget(v, "created")) and isflt(jget(v, "updated")) and (isnil(jget(v, "trashed")) or isbool(jget(v, "trashed")))
        and isstr(jget(v, "category")) and isstr(jget(v, "d")) and isstr(jget(v, "hmac")) and isstr(jget(v, "k")) and isstr(jget(v, "o"))
        and b64ok(asstr(jget(v, "o"))) and b64ok(asstr(jget(v, "d")))

def bandJson(c: str) -> any:
    jsondec(c[3:len(c) - 2])

def wfBand(c: str) -> bool:
    len(c) >= 5 and jsonok(c[3:len(c) - 2]) and ismap(bandJson(c)) and all(imp(jdom(bandJson(c))[s], wfEntry(jget(bandJson(c), s))) for s in strings)

def profJson(c: str) -> any:
    jsondec(c[12:len(c) - 1])

def wfProfile(c: str) -> bool:
    len(c) >= 13 and jsonok(c[12:len(c) - 1]) and ismap(profJson(c)) and isflt(jget(profJson(c), "iterations")) and isstr(jget(profJson(c), "salt"))
        and isstr(jget(profJson(c), "masterKey")) and isstr(jget(profJson(c), "overviewKey"))

def envRead(p: str, c: str) -> bool:
    all(all(imp(p == bandfiles(d)[k], wfBand(c)) for k in range(len(bandfiles(d)))) for d in strings)
        and all(imp(p == pjoin(d, "default", "profile.js"), wfProfile(c)) for d in strings)

def profilePath(v: str) -> str:
    pjoin(v, "default", "profile.js")

# a path is a vault when it is a directory with the profile file in it
def isVault(v: str) -> bool:
    exists[v] and isdir[v] and exists[profilePath(v)] and not isdir[profilePath(v)]

func fileProfileRepo.LoadProfile(self, vault)
    props C01
    requires vault != None
    modifies self.profileJson
    mayexit
    onexit [C18] exitcode != 0
    ensures profOk()
    ensures vals(self.profileJson) == jvals(profJson(content[profilePath(vault.Path)]))

func dfltVaultService.ValidateVault | dfltVaultFacade.Validate(self, vault) -> err
    props C18
    requires vault != None
    modifies THE.fileProfileRepo.profileJson
    mayexit
    onexit [C18] exitcode != 0
    ensures iff(err == None, isVault(vault.Path))
    ensures imp(err == None, profOk() and vals(THE.fileProfileRepo.profileJson) == jvals(profJson(content[profilePath(vault.Path)])))
    ensures imp(err != None, THE.fileProfileRepo.profileJson == old(THE.fileProfileRepo.profileJson))
    ensures imp(err != None, contains(errmsg(err), vault.Path) or contains(errmsg(err), profilePath(vault.Path)))

# ---- loading
spec bandDom(fs: seq[string], n: int) -> set[string]:
    noset() if n <= 0 else mudom(bandDom(fs, n - 1), jdom((bandJson(content[fs[n - 1]]))))

spec bandVal(fs: seq[string], n: int) -> arr[string,any]:
    noval() if n <= 0 else muval(jdom((bandJson(content[fs[n - 1]]))), bandVal(fs, n - 1), jvals((bandJson(content[fs[n - 1]]))))

def bands(v: str) -> seq[string]:
    bandfiles(pjoin(v, "default"))

def entries(v: str) -> set[string]:
    bandDom(bands(v), len(bands(v)))

def entry(v: str, u: str) -> any:
    bandVal(bands(v), len(bands(v)))[u]

def rawOf(r: *domain.RawItem, e: any) -> bool:
    r != None and r.Category == asstr(jget(e, "category")) and r.Details == asstr(jget(e, "d")) and r.Hmac == asstr(jget(e, "hmac"))
        and r.Keys == asstr(jget(e, "k")) and r.Overview == asstr(jget(e, "o")) and r.Created == trunc(asflt(jget(e, "created")))
        and r.Updated == trunc(asflt(jget(e, "updated"))) and r.Trashed == (not isnil(jget(e, "trashed")) and asbool(jget(e, "trashed")))

func fileItemRepo.LoadItems(self, vault) -> res
    props C10
    requires vault != None
    mayexit
    onexit [C06,C18] exitcode != 0
    invariant [C06,C10] all(iff(s in _m, bandDom(bands(vault.Path), _i)[s]) and imp(s in _m, _m[s] == bandVal(bands(vault.Path), _i)[s]) for s in strings)
    invariant all(imp(s in _m, wfEntry(_m[s])) for s in strings)
    invariant [C06,C10] len(_s) == _i and all(rawOf(_s[k], entry(vault.Path, _s[k].Uid)) and _s[k].Uid == _k[k] and fresh(_s[k]) for k in range(len(_s)))
    ensures [C06,C10] all(entries(vault.Path)[res[k].Uid] and rawOf(res[k], entry(vault.Path, res[k].Uid)) and fresh(res[k]) for k in range(len(res)))
    ensures [C06,C10] all(imp(entries(vault.Path)[u], any(res[k].Uid == u for k in range(len(res)))) for u in strings)
    ensures [C06,C10] all(all(imp(j < k, res[j].Uid != res[k].Uid) for j in range(len(res))) for k in range(len(res)))
    ensures fresh(res)
    ensures all(b64ok(res[k].Overview) and b64ok(res[k].Details) for k in range(len(res)))
    invariant all(b64ok(_s[k].Overview) and b64ok(_s[k].Details) for k in range(len(_s)))

func fileItemRepo.RemoveItems | dfltItemService.ClearMemory(self)
    props C03
    modifies THE.fileItemRepo.items
    ensures THE.fileItemRepo.items == None

func fileItemRepo.StoreItems(self, items)
    props C03
    requires items != None and all(items[k] != None and items[k].Category != None for k in range(len(items)))
    modifies self.items
    ensures self.items == (items if was(self.items) == None else was(self.items))

# ---- the session
inv lockedEmpty [C03,C23] on dfltVaultFacade:
    imp(THE.dfltVaultFacade.keys == None, THE.fileItemRepo.items == None)

func dfltVaultFacade.IsUnlocked(self) -> r
    props C03
    ensures r == (self.keys != None)

func dfltVaultFacade.Lock(self)
    props C03
    modifies self.keys, THE.fileItemRepo.items
    ensures self.keys == None and THE.fileItemRepo.items == None

func dfltVaultFacade.Unlock(self, vault, password) -> err
    props C01, C03
    requires vault != None and profOk()
    mayexit
    onexit [C18] exitcode != 0
    modifies self.keys, THE.fileItemRepo.items
    ensures iff(err == None, authOk(password))
    ensures imp(err != None, err == ErrInvalidPass and self.keys == old(self.keys) and THE.fileItemRepo.items == was(THE.fileItemRepo.items))
    ensures imp(err == None, self.keys != None and sessionKeys(self.keys, password))

func dfltVaultFacade.CountItems(self, category, trashed) -> n
    ensures [C03] imp(self.keys == None, n == 0)

func dfltVaultFacade.GetItem(self, uid, trashed) -> it
    assume [C07,C08,C18] imp(it != None, shapeOf(it))
    ensures [C07,C08] imp(it == None, noneFound(uid, trashed))
    ensures [C07,C08] imp(it != None, isFound(it, uid, trashed))
    ensures [C03] imp(self.keys == None, it == None)

func dfltVaultFacade.GetItems(self, category, title, trashed) -> res
    ensures [C03] imp(self.keys == None, len(res) == 0)
