# Configuration: reading, saving, interactive configuration (C11, C12).

# environment: a configuration file the program reads holds the types the program saves
def cfgTyped(d: set[string], v: arr[string,any]) -> bool:
    imp(d["timeout"] and not isnil(v["timeout"]), isint(v["timeout"]))
        and imp(d["update-notification"] and not isnil(v["update-notification"]), isbool(v["update-notification"]))
        and imp(d["update-period"] and not isnil(v["update-period"]), isint(v["update-period"]))

def envYaml(c: str) -> bool:
    cfgTyped(ydom(c), yval(c))

inv cfgWf:
    writable(THE.fileConfigRepo.config) and cfgTyped(dom(THE.fileConfigRepo.config), vals(THE.fileConfigRepo.config))

def cfgDir() -> str:
    pjoin(homeDir, ".config", "1pass")

def cfgFile() -> str:
    pjoin(cfgDir(), "1pass.yml")

# what a configuration with these entries means
def vaultIn(d: set[string], v: arr[string,any]) -> str:
    fmtany(v["opvault"]) if d["opvault"] and not isnil(v["opvault"]) else ""

def timeoutIn(d: set[string], v: arr[string,any]) -> int:
    asint(v["timeout"]) if d["timeout"] and not isnil(v["timeout"]) else 1

def notifyIn(d: set[string], v: arr[string,any]) -> bool:
    asbool(v["update-notification"]) if d["update-notification"] and not isnil(v["update-notification"]) else True

def periodIn(d: set[string], v: arr[string,any]) -> int:
    asint(v["update-period"]) if d["update-period"] and not isnil(v["update-period"]) else 1

def cfgDom() -> set[string]:
    dom(THE.fileConfigRepo.config)

def cfgVals() -> arr[string,any]:
    vals(THE.fileConfigRepo.config)

def cfgIs(c: *domain.Config, d: set[string], v: arr[string,any]) -> bool:
    c.Vault == vaultIn(d, v) and c.Timeout == timeoutIn(d, v) and c.UpdateNotify == notifyIn(d, v) and c.UpdatePeriod == periodIn(d, v)

# the settings of the session are the ones in c
def cfgNow(c: *domain.Config) -> bool:
    cfgIs(c, cfgDom(), cfgVals())

func file.NewFileConfigRepo(configDir) -> r
    props C11
    noinv cfgWf
    mayexit
    onexit [C18] exitcode != 0
    ensures r != None and r.configDir == configDir and writable(r.config)
    ensures imp(not exists[pjoin(configDir, "1pass.yml")], all(not (s in r.config) for s in strings))
    ensures imp(exists[pjoin(configDir, "1pass.yml")], all(iff(s in r.config, not yamlnil(content[pjoin(configDir, "1pass.yml")]) and ydom(content[pjoin(configDir, "1pass.yml")])[s]) for s in strings))
    ensures imp(exists[pjoin(configDir, "1pass.yml")], all(imp(s in r.config, r.config[s] == yval(content[pjoin(configDir, "1pass.yml")])[s]) for s in strings))

func fileConfigRepo.IsAvailable | dfltConfigService.IsConfigAvailable | dfltConfigFacade.IsConfigAvailable(self) -> r
    props C11
    ensures r == any(s in THE.fileConfigRepo.config for s in strings)

func fileConfigRepo.GetDefaultVault(self) -> r
    props C11
    ensures r == vaultIn(cfgDom(), cfgVals())

func fileConfigRepo.GetTimeout(self) -> r
    props C11
    ensures r == timeoutIn(cfgDom(), cfgVals())

func fileConfigRepo.GetUpdateNotification(self) -> r
    props C11
    ensures r == notifyIn(cfgDom(), cfgVals())

func fileConfigRepo.GetUpdatePeriod(self) -> r
    props C11
    ensures r == periodIn(cfgDom(), cfgVals())

func dfltConfigService.GetConfig | dfltConfigFacade.GetConfig(self) -> c
    props C11, C12
    ensures c != None and fresh(c) and cfgNow(c)

def kept(s: str) -> bool:
    s != "opvault" and s != "timeout" and s != "update-notification" and s != "update-period"

func fileConfigRepo.Save | dfltConfigService.SaveConfig | dfltConfigFacade.SaveConfig(self, config)
    props C11, C12
    requires config != None
    modifies THE.fileConfigRepo.config, mapof(THE.fileConfigRepo.config), exists, isdir, content, mode, writes
    mayexit
    onexit [C18] exitcode != 0
    ensures cfgNow(config)
    ensures exists[cfgFile()] and not isdir[cfgFile()] and yamlok(content[cfgFile()]) and not yamlnil(content[cfgFile()])
    ensures cfgIs(config, ydom(content[cfgFile()]), yval(content[cfgFile()]))
    ensures all(imp(kept(s), iff(s in THE.fileConfigRepo.config, was(dom(THE.fileConfigRepo.config))[s]) and iff(ydom(content[cfgFile()])[s], was(dom(THE.fileConfigRepo.config))[s])) for s in strings)
    ensures all(imp(kept(s) and s in THE.fileConfigRepo.config, THE.fileConfigRepo.config[s] == was(vals(THE.fileConfigRepo.config))[s] and yval(content[cfgFile()])[s] == was(vals(THE.fileConfigRepo.config))[s]) for s in strings)
    ensures writes[cfgFile()] == old(writes[cfgFile()]) + 1

# ---- interactive configuration: the answers of this run are answers[base], answers[base + 1], ...
def yesAt(a: seq[string], k: int) -> bool:
    tolower(a[k]) == "y"

def noAt(a: seq[string], k: int) -> bool:
    tolower(a[k]) == "n"

def numOr(s: str, lo: int, hi: int, prev: int) -> int:
    pint(s) if pintok(s) and pint(s) >= lo and pint(s) <= hi else prev

# o: index of the notification answer
def configured(a: seq[string], b: int, o: int, d: set[string], v: arr[string,any]) -> bool:
    vaultIn(cfgDom(), cfgVals()) == (trimspace(a[b + 1]) if yesAt(a, b) else vaultIn(d, v))
        and notifyIn(cfgDom(), cfgVals()) == (True if yesAt(a, o) else False if noAt(a, o) else notifyIn(d, v))
        and timeoutIn(cfgDom(), cfgVals()) == numOr(a[o + 1], 1, 30, timeoutIn(d, v))
        and periodIn(cfgDom(), cfgVals()) == numOr(a[o + 2], 0, 365, periodIn(d, v))

func cobraCliControl.Configure(self)
    props C12, C07, C08, C18
    modifies out, answers, feed, feeds, now, ticks, clock, exists, isdir, content, mode, writes, THE.fileConfigRepo.config, mapof(THE.fileConfigRepo.config)
    mayexit
    onexit [C18] exitcode != 0
    ensures [C12] len(answers) == len(old(answers)) + (5 if yesAt(answers, len(old(answers))) else 4)
    ensures [C12] configured(answers, len(old(answers)), len(answers) - 3, was(cfgDom()), was(cfgVals()))
    ensures [C12] writes[cfgFile()] == old(writes[cfgFile()]) + 1
