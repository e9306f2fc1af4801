# What the commands print (C07, C08, C18).
# mark: the output up to the moment the password was read; everything printed later is compared with these texts.

# the lines of the first n fields after the text a; m: the values are masked
spec fieldsText(a: str, fs: seq[*domain.ItemField], n: int, m: bool) -> str:
    a if n <= 0 else (fieldsText(a, fs, n - 1, m) + fs[n - 1].Name + ": **********\n" if m else fieldsText(a, fs, n - 1, m) + fs[n - 1].Name + ": " + fs[n - 1].Value + "\n")

def sectionHead(a: str, s: *domain.ItemSection) -> str:
    ((a + "\n" + s.Title + "\n") if s.Title != "" else (a + "\n")) + "------------------------------\n"

spec sectionsText(a: str, ss: seq[*domain.ItemSection], n: int, m: bool) -> str:
    a if n <= 0 else fieldsText(sectionHead(sectionsText(a, ss, n - 1, m), ss[n - 1]), seq(ss[n - 1].Fields), len(ss[n - 1].Fields), m)

def stamp(t: int) -> str:
    timefmt(t, "2006-01-02 15:04:05")

def head0(a: str, it: *domain.Item) -> str:
    (a + "\n" + it.Category.name + "\n" + "------------------------------\n" + it.Title + "\n" + "\n" + "Updated: " + stamp(it.Updated) + "\n" + "Created: " + stamp(it.Created) + "\n" + "Trashed: " + boolstr(it.Trashed) + "\n")

def headText(a: str, it: *domain.Item) -> str:
    (head0(a, it) + "URL: " + it.Url + "\n") if it.Url != "" else head0(a, it)

def bodyText(a: str, it: *domain.Item, m: bool) -> str:
    (sectionsText(headText(a, it), seq(it.Sections), len(it.Sections), m) + "\n") if it.Sections != None else headText(a, it)

def notes0(a: str, it: *domain.Item) -> str:
    (a + "Notes\n" + "------------------------------\n") if it.Sections != None else (a + "\n" + "Notes\n" + "------------------------------\n")

def notesText(a: str, it: *domain.Item, m: bool) -> str:
    ((notes0(a, it) + "**********\n" + "\n") if m else (notes0(a, it) + it.Notes + "\n" + "\n")) if it.Notes != "" else a

def itemText(a: str, it: *domain.Item, m: bool) -> str:
    notesText(bodyText(a, it, m), it, m)

# the first item with this uid and flag
def isFound(it: *domain.Item, uid: str, tr: bool) -> bool:
    it != None and any(THE.fileItemRepo.items[k] == it and it.Uid == uid and it.Trashed == tr
        and all(not (THE.fileItemRepo.items[j].Uid == uid and THE.fileItemRepo.items[j].Trashed == tr) for j in range(k)) for k in range(len(THE.fileItemRepo.items)))

def noneFound(uid: str, tr: bool) -> bool:
    all(not (THE.fileItemRepo.items[k].Uid == uid and THE.fileItemRepo.items[k].Trashed == tr) for k in range(len(THE.fileItemRepo.items)))

def unknownText(a: str, uid: str) -> str:
    a + "Item with UID " + uid + " do not exist\n"

def usedPath(v: str) -> str:
    v if v != "" else vaultIn(cfgDom(), cfgVals())

func cobraCliControl.FirstRun(self)
    props C07, C08, C18
    modifies out, answers, feed, feeds, now, ticks, clock, exists, isdir, content, mode, writes, THE.fileConfigRepo.config, mapof(THE.fileConfigRepo.config)
    mayexit
    onexit [C18] exitcode != 0

func cobraCliControl.GetItemOverview(self, vaultPath, uid, trashed)
    props C07, C18
    flag merge
    requires [C07,C18] THE.dfltVaultFacade.keys == None
    modifies out, answers, feed, feeds, now, ticks, clock, exists, isdir, content, mode, writes, THE.fileConfigRepo.config, mapof(THE.fileConfigRepo.config), password, mark, exitcode, THE.dfltVaultFacade.keys, THE.fileItemRepo.items, THE.fileProfileRepo.profileJson
    mayexit
    invariant [C07] depth(1) and out == sectionsText(init(out), seq(_p.Sections), _i, True)
    invariant [C07] out == fieldsText(init(out), seq(_p.Fields), _i, True)
    ensures [C07] all(imp(isFound(it, uid, trashed), out == itemText(mark, it, True)) for it in refs("domain.Item"))
    ensures [C07] imp(noneFound(uid, trashed), out == unknownText(mark, uid))
    ensures [C18] THE.dfltVaultFacade.keys != None and isVault(usedPath(vaultPath))
    onexit [C18] exitcode != 0

func cobraCliControl.GetItemDetails(self, vaultPath, uid, trashed)
    props C08, C18
    flag merge
    requires [C08,C18] THE.dfltVaultFacade.keys == None
    modifies out, answers, feed, feeds, now, ticks, clock, exists, isdir, content, mode, writes, THE.fileConfigRepo.config, mapof(THE.fileConfigRepo.config), password, mark, exitcode, THE.dfltVaultFacade.keys, THE.fileItemRepo.items, THE.fileProfileRepo.profileJson
    mayexit
    invariant [C08] depth(1) and out == sectionsText(init(out), seq(_p.Sections), _i, False)
    invariant [C08] out == fieldsText(init(out), seq(_p.Fields), _i, False)
    ensures [C08] all(imp(isFound(it, uid, trashed), out == itemText(mark, it, False)) for it in refs("domain.Item"))
    ensures [C08] imp(noneFound(uid, trashed), out == unknownText(mark, uid))
    ensures [C18] THE.dfltVaultFacade.keys != None and isVault(usedPath(vaultPath))
    onexit [C18] exitcode != 0

func cobraCliControl.GetItems(self, vaultPath, category, title, trashed)
    props C18
    requires [C18] THE.dfltVaultFacade.keys == None
    modifies out, answers, feed, feeds, now, ticks, clock, exists, isdir, content, mode, writes, THE.fileConfigRepo.config, mapof(THE.fileConfigRepo.config), password, mark, exitcode, THE.dfltVaultFacade.keys, THE.fileItemRepo.items, THE.fileProfileRepo.profileJson
    mayexit
    ensures [C18] THE.dfltVaultFacade.keys != None and isVault(usedPath(vaultPath))
    onexit [C18] exitcode != 0
