// Replay harness: concrete inputs against the real code, compared with oracles written from the property statements.
// It runs only after the verifier rejected an obligation, to find an input on which the changed code misbehaves.
package verif

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	corefacade "github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-core/port/out"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"github.com/mashmb/1pass/1pass-parse/util/pbkdf2"
)

var (
	scratch = os.Getenv("VERIF_SCRATCH")
	appBin  = os.Getenv("VERIF_BIN")
	rng     *rand.Rand
	until   time.Time
	seq     int
)

func TestMain(m *testing.M) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, err := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if err != nil {
		budget = 20
	}
	rng = rand.New(rand.NewSource(seed + 7919))
	until = time.Now().Add(time.Duration(budget) * time.Second)
	rc := m.Run()
	fmt.Printf("ROUNDS %d\n", rounds)
	os.Exit(rc)
}

// more reports whether another round fits in the time budget.
func more(n *int, max int) bool {
	*n++
	rounds++
	return *n <= max && time.Now().Before(until)
}

var rounds int

// guard turns a panic of the code under test into a failure that names the input.
func guard(t *testing.T, what func() string, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("FAILING INPUT: %s\n  the program crashes: %v", what(), r)
		}
	}()
	f()
}

// note records the input that is tried next, for the case that the program ends itself.
func note(in string) { ioutil.WriteFile(filepath.Join(scratch, "current"), []byte(in), 0644) }

func unb64(s string) ([]byte, error) { return base64.StdEncoding.DecodeString(s) }

func bad(t *testing.T, format string, a ...interface{}) {
	t.Helper()
	t.Fatalf("FAILING INPUT: "+format, a...)
}

func tmpDir(t *testing.T) string {
	t.Helper()
	seq++
	d := filepath.Join(scratch, fmt.Sprintf("d%d", seq))
	if err := os.MkdirAll(d, 0755); err != nil {
		t.Skip(err)
	}
	return d
}

func pick(xs ...string) string { return xs[rng.Intn(len(xs))] }

func js(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// ---------------------------------------------------------------- writing vaults
type obj = map[string]interface{}
type arr = []interface{}

type vitem struct {
	uid, cat    string
	trashed     interface{} // nil: not recorded
	created     int64
	updated     int64
	overview    interface{} // nil: blob that does not decrypt
	details     interface{}
	badKeys     bool // item keys that do not authenticate
	badOverview bool
	badDetails  bool
}

func (v vitem) isTrashed() bool { b, _ := v.trashed.(bool); return b }

func rnd(n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

func cbc(key, iv, data []byte) []byte {
	b, _ := aes.NewCipher(key)
	o := make([]byte, len(data))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(o, data)
	return o
}

func mac(key, data []byte) []byte {
	h := hmac.New(sha256.New, key)
	h.Write(data)
	return h.Sum(nil)
}

func opdata(plain, key, mkey []byte) []byte {
	pad := 16 - len(plain)%16
	iv := rnd(16)
	var b bytes.Buffer
	b.WriteString("opdata01")
	binary.Write(&b, binary.LittleEndian, int64(len(plain)))
	b.Write(iv)
	b.Write(cbc(key, iv, append(rnd(pad), plain...)))
	return append(b.Bytes(), mac(mkey, b.Bytes())...)
}

func itemKeys(k, m, key, mkey []byte) []byte {
	iv := rnd(16)
	d := append(append([]byte{}, iv...), cbc(key, iv, append(append([]byte{}, k...), m...))...)
	return append(d, mac(mkey, d)...)
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// pbk is an independent PBKDF2 with HMAC-SHA512 for 64 bytes of output.
func pbk(pass, salt []byte, iter int) []byte {
	h := hmac.New(sha512.New, pass)
	h.Write(salt)
	h.Write([]byte{0, 0, 0, 1})
	u := h.Sum(nil)
	r := append([]byte{}, u...)
	for i := 1; i < iter; i++ {
		h = hmac.New(sha512.New, pass)
		h.Write(u)
		u = h.Sum(nil)
		for j := range r {
			r[j] ^= u[j]
		}
	}
	return r
}

type vaultKeys struct {
	derived, master, overview []byte // 64 bytes each
	profile                   obj
}

func newVaultKeys(pass string) vaultKeys {
	salt := rnd(16)
	iter := 1 + rng.Intn(20)
	k := vaultKeys{derived: pbk([]byte(pass), salt, iter)}
	mb, ob := rnd(256), rnd(64)
	ms, os_ := sha512.Sum512(mb), sha512.Sum512(ob)
	k.master, k.overview = ms[:], os_[:]
	k.profile = obj{"salt": b64(salt), "iterations": iter, "masterKey": b64(opdata(mb, k.derived[:32], k.derived[32:])),
		"overviewKey": b64(opdata(ob, k.derived[:32], k.derived[32:])), "uuid": "X", "profileName": "default"}
	return k
}

func writeProfile(path string, k vaultKeys) {
	os.MkdirAll(filepath.Join(path, "default"), 0755)
	ioutil.WriteFile(filepath.Join(path, "default", "profile.js"), []byte("var profile="+js(k.profile)+";"), 0644)
}

func flip(b []byte) []byte {
	c := append([]byte{}, b...)
	c[rng.Intn(len(c))] ^= byte(1 << uint(rng.Intn(8)))
	return c
}

func encode(v vitem, k vaultKeys) obj {
	ik := rnd(64)
	keys := itemKeys(ik[:32], ik[32:], k.master[:32], k.master[32:])
	ov := opdata([]byte(js(v.overview)), k.overview[:32], k.overview[32:])
	de := opdata([]byte(js(v.details)), ik[:32], ik[32:])
	if v.overview == nil {
		ov = rnd(80)
	}
	if v.details == nil {
		de = rnd(80)
	}
	if v.badKeys {
		keys = flip(keys)
	}
	if v.badOverview {
		ov = flip(ov)
	}
	if v.badDetails {
		de = flip(de)
	}
	o := obj{"uuid": v.uid, "category": v.cat, "created": v.created, "updated": v.updated, "tx": v.updated, "k": b64(keys), "o": b64(ov), "d": b64(de), "hmac": b64(rnd(32))}
	if v.trashed != nil {
		o["trashed"] = v.trashed
	}
	return o
}

func writeVault(path, pass string, items []vitem) vaultKeys {
	k := newVaultKeys(pass)
	writeProfile(path, k)
	bands := map[string]obj{}
	for _, v := range items {
		b := "band_" + strings.ToUpper(v.uid[:1]) + ".js"
		if bands[b] == nil {
			bands[b] = obj{}
		}
		bands[b][v.uid] = encode(v, k)
	}
	for b, c := range bands {
		ioutil.WriteFile(filepath.Join(path, "default", b), []byte("ld("+js(c)+");"), 0644)
	}
	return k
}

// ---------------------------------------------------------------- the real object graph
type world struct {
	dir     string
	config  out.ConfigRepo
	items   out.ItemRepo
	profile out.ProfileRepo
	keys    service.KeyService
	itemSvc service.ItemService
	vaults  service.VaultService
	facade  corefacade.VaultFacade
}

func newWorld(t *testing.T) *world {
	w := &world{dir: tmpDir(t)}
	w.config = file.NewFileConfigRepo(filepath.Join(w.dir, "config"))
	w.items = file.NewFileItemRepo()
	w.profile = file.NewFileProfileRepo()
	cs := service.NewDfltConfigService(w.config)
	w.keys = service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), w.profile)
	w.itemSvc = service.NewDfltItemService(w.keys, w.items)
	w.vaults = service.NewDfltVaultService(w.items, w.profile)
	w.facade = corefacade.NewDfltVaultFacade(cs, w.itemSvc, w.keys, w.vaults)
	return w
}

// ---------------------------------------------------------------- the OPVault categories, written down independently
var cats = [][2]string{{"001", "Login"}, {"002", "Credit Card"}, {"003", "Secure Note"}, {"004", "Identity"}, {"005", "Password"}, {"099", "Tombstone"},
	{"100", "Software License"}, {"101", "Bank Account"}, {"102", "Database"}, {"103", "Driver License"}, {"104", "Outdoor License"}, {"105", "Membership"},
	{"106", "Passport"}, {"107", "Rewards"}, {"108", "SSN"}, {"109", "Router"}, {"110", "Server"}, {"111", "Email"}}

func catName(code string) string {
	for _, c := range cats {
		if c[0] == code {
			return c[1]
		}
	}
	return ""
}

func uid() string {
	const h = "0123456789ABCDEF"
	b := make([]byte, 32)
	for i := range b {
		b[i] = h[rng.Intn(16)]
	}
	return string(b)
}

func randTitle() string {
	return pick("", "a", "B", "bb", "Alpha", "alpha", "Zeta", "zeta 2", "Bank of X", "x y z", "ÄÖ", "äö", "Mail", "mail mail", "100%", "<NO TITLE>", "Very Long Title Of An Item That Does Not Fit In One Row Of The Screen Or So")
}

func randItems(n int, ncat int) []*domain.Item {
	var out []*domain.Item
	for i := 0; i < n; i++ {
		c, _ := domain.ItemCategoryEnum.FromCode(cats[rng.Intn(ncat)][0])
		u := uid()
		if i > 0 && rng.Intn(8) == 0 {
			u = out[rng.Intn(len(out))].Uid
		}
		out = append(out, domain.NewItem(u, randTitle(), pick("", "https://x"), pick("", "note"), rng.Intn(3) == 0, c, nil, int64(rng.Intn(1<<30)), int64(rng.Intn(1<<30))))
	}
	return out
}

func dump(items []*domain.Item) string {
	var b strings.Builder
	for _, i := range items {
		fmt.Fprintf(&b, "\n    uid=%s title=%q category=%s trashed=%v", i.Uid, i.Title, i.Category.GetName(), i.Trashed)
	}
	return b.String()
}

func newWorldMem() *world {
	w := &world{}
	w.config = file.NewFileConfigRepo(filepath.Join(scratch, "noconfig"))
	w.items = file.NewFileItemRepo()
	w.profile = file.NewFileProfileRepo()
	cs := service.NewDfltConfigService(w.config)
	w.keys = service.NewDfltKeyService(pbkdf2.NewPbkdf2CryptoUtils(), w.profile)
	w.itemSvc = service.NewDfltItemService(w.keys, w.items)
	w.vaults = service.NewDfltVaultService(w.items, w.profile)
	w.facade = corefacade.NewDfltVaultFacade(cs, w.itemSvc, w.keys, w.vaults)
	return w
}
