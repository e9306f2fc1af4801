# Decoded items: listing, counting, lookup (C04, C05).

# every stored item exists and has one of the registered categories
inv itemswf:
    all(THE.fileItemRepo.items[k] != None and THE.fileItemRepo.items[k].Category != None for k in range(len(THE.fileItemRepo.items)))

def matches(it: *domain.Item, c: *domain.ItemCategory, t: str, tr: bool) -> bool:
    it.Trashed == tr and (c == None or it.Category == c) and (t == "" or contains(tolower(it.Title), tolower(t)))

spec filt(s: seq[*domain.Item], n: int, c: *domain.ItemCategory, t: str, tr: bool) -> seq[*domain.Item]:
    empty("*domain.Item") if n <= 0 else (snoc(filt(s, n - 1, c, t, tr), s[n - 1]) if matches(s[n - 1], c, t, tr) else filt(s, n - 1, c, t, tr))

spec cnt(s: seq[*domain.Item], n: int, c: *domain.ItemCategory, tr: bool) -> int:
    0 if n <= 0 else (cnt(s, n - 1, c, tr) + 1 if s[n - 1].Trashed == tr and (c == None or s[n - 1].Category == c) else cnt(s, n - 1, c, tr))

# index of the first item with that uid and flag among the first n, or n
spec firstOf(s: seq[*domain.Item], n: int, uid: str, tr: bool) -> int:
    0 if n <= 0 else (firstOf(s, n - 1, uid, tr) if firstOf(s, n - 1, uid, tr) < n - 1 else (n - 1 if s[n - 1].Uid == uid and s[n - 1].Trashed == tr else n))

func fileItemRepo.CountByCategoryAndTrashed(self, category, trashed) -> n
    props C05
    invariant _i == cnt(seq(self.items), _j, category, trashed)
    ensures n == cnt(seq(self.items), len(self.items), category, trashed)

func fileItemRepo.FindByCategoryAndTitleAndTrashed(self, category, title, trashed) -> res
    props C04
    invariant seq(_s) == filt(seq(self.items), _i, category, title, trashed)
    invariant all(_s[k] != None and _s[k].Category != None for k in range(len(_s)))
    ensures seq(res) == filt(seq(self.items), len(self.items), category, title, trashed)
    ensures all(res[k] != None and res[k].Category != None for k in range(len(res)))

func fileItemRepo.FindFirstByUidAndTrashed(self, uid, trashed) -> it
    props C05
    invariant all(not (self.items[k].Uid == uid and self.items[k].Trashed == trashed) for k in range(_i))
    ensures imp(it == None, all(not (self.items[k].Uid == uid and self.items[k].Trashed == trashed) for k in range(len(self.items))))
    ensures imp(it != None, any(self.items[k] == it and it.Uid == uid and it.Trashed == trashed
        and all(not (self.items[j].Uid == uid and self.items[j].Trashed == trashed) for j in range(k)) for k in range(len(self.items))))

def mirrors(s: *domain.SimpleItem, it: *domain.Item) -> bool:
    s.Uid == it.Uid and s.Title == it.Title and s.Category == it.Category and s.Trashed == it.Trashed

def itemsF(c: *domain.ItemCategory, t: str, tr: bool) -> seq[*domain.Item]:
    filt(seq(THE.fileItemRepo.items), len(THE.fileItemRepo.items), c, t, tr)

# the i-th matching item is the item at position pos(i); positions ascend
func dfltItemService.GetSimpleItems | dfltVaultFacade.GetItems(self, category, title, trashed) -> res
    props C04
    ensures len(res) == len(itemsF(category, title, trashed))
    ensures all(res[k] != None for k in range(len(res)))
    ensures all(any(mirrors(res[k], itemsF(category, title, trashed)[i]) for i in range(len(res))) for k in range(len(res)))
    ensures all(any(mirrors(res[k], itemsF(category, title, trashed)[i]) for k in range(len(res))) for i in range(len(res)))
    ensures all(all(imp(j < k, res[j] != res[k]) for j in range(len(res))) for k in range(len(res)))
    ensures all(all(imp(j < k, res[j].Category.code < res[k].Category.code or (res[j].Category.code == res[k].Category.code and res[j].Title <= res[k].Title)) for j in range(len(res))) for k in range(len(res)))
    invariant all(_s[k] != None and fresh(_s[k]) and mirrors(_s[k], itemsF(category, title, trashed)[k]) for k in range(len(_s)))
    invariant all(all(imp(j < k, _s[j] != _s[k]) for j in range(len(_s))) for k in range(len(_s)))

func dfltItemService.CountItems | dfltVaultFacade.CountItems(self, category, trashed) -> n
    props C05
    ensures n == cnt(seq(THE.fileItemRepo.items), len(THE.fileItemRepo.items), category, trashed)

func dfltItemService.GetItem | dfltVaultFacade.GetItem(self, uid, trashed) -> it
    props C05
    ensures imp(it == None, all(not (THE.fileItemRepo.items[k].Uid == uid and THE.fileItemRepo.items[k].Trashed == trashed) for k in range(len(THE.fileItemRepo.items))))
    ensures imp(it != None, any(THE.fileItemRepo.items[k] == it and it.Uid == uid and it.Trashed == trashed
        and all(not (THE.fileItemRepo.items[j].Uid == uid and THE.fileItemRepo.items[j].Trashed == trashed) for j in range(k)) for k in range(len(THE.fileItemRepo.items))))
