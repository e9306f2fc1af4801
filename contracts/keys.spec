# Key service: authenticated decryption and key derivation (C01, C02).

def aesKey(k: bytes) -> bool:
    len(k) == 16 or len(k) == 24 or len(k) == 32

# the last 32 bytes are the HMAC of everything before them
def macOk(c: bytes, mk: bytes) -> bool:
    len(c) >= 32 and hmac("sha256", mk, c[:len(c) - 32]) == c[len(c) - 32:]

def opOk(c: bytes, k: bytes, mk: bytes) -> bool:
    len(c) >= 64 and macOk(c, mk) and aesKey(k) and (len(c) - 64) % 16 == 0 and 0 <= le64(c[8:16]) and le64(c[8:16]) <= len(c) - 64

# the trailing declared-length bytes of the decryption of the body
def opPlain(c: bytes, k: bytes) -> bytes:
    cbcdecrypt(k, c[16:32], c[32:len(c) - 32])[len(c) - 64 - le64(c[8:16]):len(c) - 64]

func dfltKeyService.CheckHmac(self, msg, key, desired) -> err
    props C02
    ensures iff(err == None, hmac("sha256", key, msg) == bytes(desired))

func dfltKeyService.DecodeData(self, key, iv, data) -> plain, err
    props C02
    modifies elems(data)
    ensures iff(err == None, aesKey(old(bytes(key))) and len(iv) == 16 and len(data) % 16 == 0)
    ensures imp(err == None, plain == data and bytes(plain) == cbcdecrypt(old(bytes(key)), old(bytes(iv)), old(bytes(data))))
    ensures imp(err != None, plain == None)

func dfltKeyService.DecodeOpdata(self, cipher, key, mac) -> plain, err
    props C02
    modifies elems(cipher)
    ensures iff(err == None, opOk(old(bytes(cipher)), old(bytes(key)), old(bytes(mac))))
    ensures imp(err == None, bytes(plain) == opPlain(old(bytes(cipher)), old(bytes(key))))
    ensures imp(err != None, plain == None)

# ---- the profile and the keys a password gives
def profOk() -> bool:
    isflt(THE.fileProfileRepo.profileJson["iterations"]) and isstr(THE.fileProfileRepo.profileJson["salt"])
        and isstr(THE.fileProfileRepo.profileJson["masterKey"]) and isstr(THE.fileProfileRepo.profileJson["overviewKey"])

def pSalt() -> str:
    asstr(THE.fileProfileRepo.profileJson["salt"])

def pMaster() -> str:
    asstr(THE.fileProfileRepo.profileJson["masterKey"])

def pOverview() -> str:
    asstr(THE.fileProfileRepo.profileJson["overviewKey"])

def pIter() -> int:
    trunc(asflt(THE.fileProfileRepo.profileJson["iterations"]))

def stretched(pw: str) -> bytes:
    pbkdf2(pw, b64dec(pSalt()), pIter(), 64, "sha512")

# a key blob opens with the first half of the stretched password, authenticated by the second half
def blobOk(b: str, dk: bytes, dm: bytes) -> bool:
    b64ok(b) and opOk(b64dec(b), dk, dm)

def blobKeys(b: str, dk: bytes) -> bytes:
    hash("sha512", opPlain(b64dec(b), dk))

def authOk(pw: str) -> bool:
    b64ok(pSalt()) and blobOk(pMaster(), stretched(pw)[:32], stretched(pw)[32:64]) and blobOk(pOverview(), stretched(pw)[:32], stretched(pw)[32:64])

def sessionKeys(k: *domain.Keys, pw: str) -> bool:
    bytes(k.DerivedKey) == stretched(pw)[:32] and bytes(k.DerivedMac) == stretched(pw)[32:64]
        and bytes(k.MasterKey) == blobKeys(pMaster(), stretched(pw)[:32])[:32] and bytes(k.MasterMac) == blobKeys(pMaster(), stretched(pw)[:32])[32:64]
        and bytes(k.OverviewKey) == blobKeys(pOverview(), stretched(pw)[:32])[:32] and bytes(k.OverviewMac) == blobKeys(pOverview(), stretched(pw)[:32])[32:64]

func fileProfileRepo.GetIterations(self) -> r
    props C01
    requires isflt(self.profileJson["iterations"])
    ensures r == pIter()

func fileProfileRepo.GetMasterKey(self) -> r
    props C01
    requires isstr(self.profileJson["masterKey"])
    ensures r == pMaster()

func fileProfileRepo.GetOverviewKey(self) -> r
    props C01
    requires isstr(self.profileJson["overviewKey"])
    ensures r == pOverview()

func fileProfileRepo.GetSalt(self) -> r
    props C01
    requires isstr(self.profileJson["salt"])
    ensures r == pSalt()

func dfltKeyService.DerivedKeys(self, password) -> dk, dm, err
    props C01
    requires profOk()
    ensures iff(err == None, b64ok(pSalt()))
    ensures imp(err == None, bytes(dk) == stretched(password)[:32] and bytes(dm) == stretched(password)[32:64] and fresh(dk) and fresh(dm))

func dfltKeyService.DecodeKeys(self, blob, dk, dm) -> k, m, err
    props C01, C02
    modifies elems(blob)
    ensures iff(err == None, opOk(old(bytes(blob)), old(bytes(dk)), old(bytes(dm))))
    ensures imp(err == None, bytes(k) == hash("sha512", opPlain(old(bytes(blob)), old(bytes(dk))))[:32] and bytes(m) == hash("sha512", opPlain(old(bytes(blob)), old(bytes(dk))))[32:64])
    ensures imp(err == None, fresh(k) and fresh(m))
    ensures imp(err != None, k == None and m == None)

func dfltKeyService.MasterKeys(self, dk, dm) -> k, m, err
    props C01
    requires profOk()
    ensures iff(err == None, blobOk(pMaster(), bytes(dk), bytes(dm)))
    ensures imp(err == None, bytes(k) == blobKeys(pMaster(), bytes(dk))[:32] and bytes(m) == blobKeys(pMaster(), bytes(dk))[32:64] and fresh(k) and fresh(m))

func dfltKeyService.OverviewKeys(self, dk, dm) -> k, m, err
    props C01
    requires profOk()
    ensures iff(err == None, blobOk(pOverview(), bytes(dk), bytes(dm)))
    ensures imp(err == None, bytes(k) == blobKeys(pOverview(), bytes(dk))[:32] and bytes(m) == blobKeys(pOverview(), bytes(dk))[32:64] and fresh(k) and fresh(m))

# an item's keys: IV, encrypted keys and a MAC over both under the master MAC key
def ikOk(b: str, mk: bytes, mm: bytes) -> bool:
    b64ok(b) and len(b64dec(b)) >= 112 and macOk(b64dec(b), mm) and aesKey(mk) and (len(b64dec(b)) - 48) % 16 == 0

def ikPlain(b: str, mk: bytes) -> bytes:
    cbcdecrypt(mk, b64dec(b)[0:16], b64dec(b)[16:len(b64dec(b)) - 32])

func dfltKeyService.ItemKeys(self, item, keys) -> k, m
    props C02
    requires item != None and keys != None
    ensures iff(k != None, ikOk(item.Keys, bytes(keys.MasterKey), bytes(keys.MasterMac)))
    ensures imp(k != None, bytes(k) == ikPlain(item.Keys, bytes(keys.MasterKey))[0:32] and bytes(m) == ikPlain(item.Keys, bytes(keys.MasterKey))[32:64])
    ensures imp(k == None, m == None)
