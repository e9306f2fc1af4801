# Decoding of items and rendering of field values (C06, C09).

def strOr(v: any) -> str:
    asstr(v) if isstr(v) else ""

def jg(x: any, s: str) -> any:
    jget(x, s) if ismap(x) else nil()

def plainJson(ok: bool, p: bytes) -> any:
    jsondec(p) if ok and jsonok(p) and ismap(jsondec(p)) else nil()

def ovJson(o: str, k: *domain.Keys) -> any:
    plainJson(opOk(b64dec(o), bytes(k.OverviewKey), bytes(k.OverviewMac)), opPlain(b64dec(o), bytes(k.OverviewKey)))

def ikKey(b: str, mk: bytes) -> bytes:
    ikPlain(b, mk)[0:32]

def ikMac(b: str, mk: bytes) -> bytes:
    ikPlain(b, mk)[32:64]

def dtJson(d: str, b: str, k: *domain.Keys) -> any:
    plainJson(ikOk(b, bytes(k.MasterKey), bytes(k.MasterMac)) and opOk(b64dec(d), ikKey(b, bytes(k.MasterKey)), ikMac(b, bytes(k.MasterKey))), opPlain(b64dec(d), ikKey(b, bytes(k.MasterKey))))

# ---- field values
def rawText(v: any) -> str:
    formatfloat(asflt(v), 102, -1, 64) if isflt(v) else fmtany(v)

spec addrText(ks: seq[string], m: jmap, n: int) -> str:
    "" if n <= 0 else addrText(ks, m, n - 1) + "\n  " + ks[n - 1] + ": " + replaceall(trimspace(asstr(m[ks[n - 1]])), "\n", " ")

def ymText(s: str) -> str:
    s[:4] + "-" + s[4:] if len(s) > 4 else s

func dataTypeRegistry.ParseValue(self, dt, value, json) -> r
    props C09
    requires dt != None
    requires imp(dt == self.Address, all(imp(s in json, isstr(json[s])) for s in strings))
    ensures imp(dt == self.Address, r == addrText(sortedkeys(dom(json)), json, len(sortedkeys(dom(json)))))
    ensures imp(dt == self.Date and pintok(value), r == timefmt(pint(value), "2006-01-02"))
    ensures imp(dt == self.MonthYear, r == ymText(value))
    ensures imp(dt != self.Address and dt != self.Date and dt != self.MonthYear, r == value)
    invariant all(_s[k] == _k[k] for k in range(_i)) and _i <= len(_s)
    invariant _t == addrText(seq(_a), json, _i)

def shown(k: str, v: any) -> str:
    (asstr(v) if typeNamed(tolower(k)) == None
        else addrText(sortedkeys(jdom(v)), asmap(v), len(sortedkeys(jdom(v)))) if typeNamed(tolower(k)) == DataTypeEnum.Address
        else ymText(rawText(v)) if typeNamed(tolower(k)) == DataTypeEnum.MonthYear
        else timefmt(pint(rawText(v)), "2006-01-02"))

# ---- environment: decrypted overviews and details have the shape 1Password gives them
def wfPlain(f: any) -> bool:
    ismap(f) and isjson(f) and imp(not isnil(jget(f, "value")) and not isnil(jget(f, "name")), isstr(jget(f, "value")) and isstr(jget(f, "name")))

def wfField(f: any) -> bool:
    ismap(f) and isjson(f) and imp(not isnil(jget(f, "v")), isstr(jget(f, "k")) and isstr(jget(f, "t")) and isjson(jget(f, "v"))
        and imp(typeNamed(tolower(asstr(jget(f, "k")))) == None, isstr(jget(f, "v")))
        and imp(typeNamed(tolower(asstr(jget(f, "k")))) == DataTypeEnum.Date, pintok(rawText(jget(f, "v"))))
        and imp(typeNamed(tolower(asstr(jget(f, "k")))) == DataTypeEnum.Address, ismap(jget(f, "v")) and all(imp(jdom(jget(f, "v"))[s], isstr(jget(jget(f, "v"), s))) for s in strings)))

def wfSection(f: any) -> bool:
    ismap(f) and isjson(f) and (isnil(jget(f, "title")) or isstr(jget(f, "title"))) and (isnil(jget(f, "fields")) or isarr(jget(f, "fields")) and isjson(jget(f, "fields"))
        and all(wfField(jelems(jget(f, "fields"))[k]) for k in range(len(jelems(jget(f, "fields"))))))

# ---- fields
def plainShown(f: any) -> bool:
    isstr(jget(f, "value")) and isstr(jget(f, "name")) and asstr(jget(f, "value")) != "" and asstr(jget(f, "name")) != ""

func dfltItemService.ParseItemField(self, fromSection, data) -> field
    props C09
    requires imp(not fromSection, wfPlain(wrap(data)))
    requires imp(fromSection, wfField(wrap(data)))
    ensures imp(not fromSection, iff(field != None, plainShown(wrap(data))))
    ensures imp(not fromSection and field != None, field.Name == totitle(asstr(jget(wrap(data), "name"))) and field.Value == asstr(jget(wrap(data), "value")))
    ensures imp(fromSection, iff(field != None, not isnil(jget(wrap(data), "v"))))
    ensures imp(fromSection and field != None, field.Name == totitle(asstr(jget(wrap(data), "t"))) and field.Value == shown(asstr(jget(wrap(data), "k")), jget(wrap(data), "v")))
    ensures imp(field != None, fresh(field))

# names and values of the plain fields among the first n, of the section fields among the first n
spec pfN(a: seq[any], n: int) -> seq[string]:
    empty("string") if n <= 0 else (snoc(pfN(a, n - 1), totitle(asstr(jget(a[n - 1], "name")))) if plainShown(a[n - 1]) else pfN(a, n - 1))

spec pfV(a: seq[any], n: int) -> seq[string]:
    empty("string") if n <= 0 else (snoc(pfV(a, n - 1), asstr(jget(a[n - 1], "value"))) if plainShown(a[n - 1]) else pfV(a, n - 1))

spec sfN(a: seq[any], n: int) -> seq[string]:
    empty("string") if n <= 0 else (snoc(sfN(a, n - 1), totitle(asstr(jget(a[n - 1], "t")))) if not isnil(jget(a[n - 1], "v")) else sfN(a, n - 1))

spec sfV(a: seq[any], n: int) -> seq[string]:
    empty("string") if n <= 0 else (snoc(sfV(a, n - 1), shown(asstr(jget(a[n - 1], "k")), jget(a[n - 1], "v"))) if not isnil(jget(a[n - 1], "v")) else sfV(a, n - 1))

def arrOf(v: any) -> seq[any]:
    jelems(v) if isarr(v) else empty("interface{}")

def secN(js: any) -> seq[string]:
    sfN(arrOf(jget(js, "fields")), len(arrOf(jget(js, "fields"))))

def secV(js: any) -> seq[string]:
    sfV(arrOf(jget(js, "fields")), len(arrOf(jget(js, "fields"))))

def secShown(js: any) -> bool:
    len(secN(js)) > 0 or totitle(strOr(jget(js, "title"))) != ""

def fieldsAre(fs: seq[*domain.ItemField], ns: seq[string], vs: seq[string]) -> bool:
    len(fs) == len(ns) and len(fs) == len(vs) and all(fs[k] != None and fs[k].Name == ns[k] and fs[k].Value == vs[k] for k in range(len(fs)))

func dfltItemService.ParseItemSection(self, data) -> sec
    props C06
    requires wfSection(wrap(data))
    invariant fieldsAre(seq(_s), sfN(arrOf(jget(wrap(data), "fields")), _i), sfV(arrOf(jget(wrap(data), "fields")), _i)) and all(fresh(_s[k]) for k in range(len(_s)))
    ensures iff(sec != None, secShown(wrap(data)))
    ensures imp(sec != None, fresh(sec) and sec.Title == totitle(strOr(jget(wrap(data), "title"))) and fieldsAre(seq(sec.Fields), secN(wrap(data)), secV(wrap(data))))
    ensures imp(sec != None, sec.Fields == None or fresh(sec.Fields) and all(fresh(sec.Fields[k]) for k in range(len(sec.Fields))))

# ---- overview and details
def wfOverview(m: jmap) -> bool:
    (isnil(m["title"]) or isstr(m["title"])) and (isnil(m["url"]) or isstr(m["url"]))

def wfDetails(m: jmap) -> bool:
    (isnil(m["notesPlain"]) or isstr(m["notesPlain"]))
        and (isnil(m["fields"]) or isarr(m["fields"]) and isjson(m["fields"]) and all(wfPlain(jelems(m["fields"])[k]) for k in range(len(jelems(m["fields"])))))
        and (isnil(m["sections"]) or isarr(m["sections"]) and isjson(m["sections"]) and all(wfSection(jelems(m["sections"])[k]) for k in range(len(jelems(m["sections"])))))

func dfltItemService.DecodeOverview(self, encoded, keys) -> r
    props C06
    requires encoded != None and keys != None and b64ok(encoded.Overview)
    ensures [C06] all(r[s] == jg(ovJson(encoded.Overview, keys), s) for s in strings)
    ensures r == None or fresh(r)
    assume wfOverview(r)

func dfltItemService.DecodeDetails(self, encoded, keys) -> r
    props C06
    requires encoded != None and keys != None and b64ok(encoded.Details)
    ensures [C06] all(r[s] == jg(dtJson(encoded.Details, encoded.Keys, keys), s) for s in strings)
    ensures r == None or fresh(r)
    assume wfDetails(r)

# no section and no field of a decoded item is missing
def secOf(s: *domain.ItemSection) -> bool:
    s != None and all(s.Fields[j] != None for j in range(len(s.Fields)))

def shapeOf(it: *domain.Item) -> bool:
    all(secOf(it.Sections[k]) for k in range(len(it.Sections)))

# ---- items: what each decoded item contains is covered by a bounded check (DESIGN.md, C06)
func dfltItemService.DecodeItems(self, vault, keys)
    props C06
    flag provedin:C06
    bounded contents, completeness and order of the decoded items, compared with an independent oracle on random encrypted vaults of up to 8 items
    requires vault != None and keys != None
    mayexit
    onexit [C06,C18] exitcode != 0
    modifies THE.fileItemRepo.items
    ensures THE.fileItemRepo.items != None
    ensures imp(was(THE.fileItemRepo.items) != None, THE.fileItemRepo.items == was(THE.fileItemRepo.items))
    invariant all(_s[k] != None and _s[k].Category != None for k in range(len(_s)))
