package verif

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"encoding/binary"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

// snapshot of everything below a directory: names, modes, contents.
func tree(dir string) string {
	var b strings.Builder
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			fmt.Fprintf(&b, "%s: %v\n", p, err)
			return nil
		}
		c := ""
		if i.Mode().IsRegular() {
			d, _ := ioutil.ReadFile(p)
			c = fmt.Sprintf("%d %x", i.ModTime().UnixNano(), d)
		}
		fmt.Fprintf(&b, "%s %v %s\n", p, i.Mode(), c)
		return nil
	})
	return b.String()
}

// ---------------------------------------------------------------- random vault contents
func randField() obj {
	f := obj{"k": pick("string", "string", "concealed", "URL", "email", "date", "monthYear", "address", "Date", "MONTHYEAR", "phone", "menu", "datetime", "dates"), "t": pick("username", "PIN", "start date", "", "url 2", "öffnung", "a.b", "e-mail")}
	switch strings.ToLower(f["k"].(string)) {
	case "date":
		n := []int64{0, 1, 86399, 86400, 951782400, 1234567890, 1582934400, 2000000000, 1<<31 - 1, 1 << 31, 4102444800, 12345678901, -1, -86400, 999999, 1000000, 20999999, 21000000, int64(rng.Intn(1 << 40)), 253402300799}[rng.Intn(20)]
		if rng.Intn(2) == 0 {
			f["v"] = n
		} else {
			f["v"] = strconv.FormatInt(n, 10)
		}
	case "monthyear":
		v := pick("202005", "199912", "2021", "", "20205", "2020115")
		if n, err := strconv.Atoi(v); err == nil && rng.Intn(2) == 0 {
			f["v"] = n
		} else {
			f["v"] = v
		}
	case "address":
		m := obj{}
		for i := rng.Intn(6); i > 0; i-- {
			m[pick("city", "street", "zip", "state", "country", "Region", "a", "zz")] = pick("X", " padded ", "two\nlines", "", "a\n\nb", "line\n", "trailing  ", "%d")
		}
		f["v"] = m
	default:
		f["v"] = pick("secret", "", " lead", "multi\nline", "100%", "ÄÖ", "tab\tx", "0", "20200101", "12", "null", "x: y")
	}
	if rng.Intn(7) == 0 {
		if rng.Intn(2) == 0 {
			delete(f, "v")
		} else {
			f["v"] = nil
		}
	}
	f["n"] = "x"
	return f
}

func randPlain() obj {
	f := obj{"type": "T", "designation": "username"}
	switch rng.Intn(8) {
	case 0:
		f["name"] = nil
	case 1:
	default:
		f["name"] = pick("username", "password", "", "user name", "ök")
	}
	switch rng.Intn(8) {
	case 0:
		f["value"] = nil
	case 1:
	default:
		f["value"] = pick("john", "", "p w", "hunter2", " s ", "0", "line1\nline2")
	}
	return f
}

func randVitem() vitem {
	v := vitem{uid: uid(), cat: cats[rng.Intn(len(cats))][0], created: int64(rng.Intn(1 << 31)), updated: int64(rng.Intn(1 << 31))}
	if rng.Intn(12) == 0 {
		v.created, v.updated = 1<<33+int64(rng.Intn(100)), 1<<40
	}
	if rng.Intn(10) == 0 {
		v.cat = pick("", "000", "112", "1", "01", "Login", "098", "0010", "011")
	}
	if rng.Intn(2) == 0 {
		v.trashed = rng.Intn(2) == 0
	}
	o := obj{"ainfo": "x"}
	if rng.Intn(8) != 0 {
		o["title"] = randTitle()
	} else if rng.Intn(2) == 0 {
		o["title"] = nil
	}
	if rng.Intn(2) == 0 {
		o["url"] = pick("", "https://example.org/a?b=c&d=%20", "x")
	}
	v.overview = o
	d := obj{}
	if rng.Intn(2) == 0 {
		d["notesPlain"] = pick("", "note", "two\nlines", " sp ", "100% %s", strings.Repeat("long ", 60))
	}
	if rng.Intn(3) != 0 {
		fs := arr{}
		for i := rng.Intn(5); i > 0; i-- {
			fs = append(fs, randPlain())
		}
		d["fields"] = fs
	}
	if rng.Intn(3) != 0 {
		ss := arr{}
		for i := rng.Intn(4); i > 0; i-- {
			s := obj{"name": "n"}
			if rng.Intn(3) != 0 {
				s["title"] = pick("", "web", "more info", "Title Case", "ö")
			}
			if rng.Intn(5) != 0 {
				fs := arr{}
				for j := rng.Intn(5); j > 0; j-- {
					fs = append(fs, randField())
				}
				s["fields"] = fs
			}
			ss = append(ss, s)
		}
		d["sections"] = ss
	}
	v.details = d
	switch rng.Intn(16) {
	case 0:
		v.badKeys = true
	case 1:
		v.badOverview = true
	case 2:
		v.badDetails = true
	case 3:
		v.overview = nil
	case 4:
		v.details = nil
	}
	return v
}

func randVault(n int) []vitem {
	var out []vitem
	for i := 0; i < n; i++ {
		out = append(out, randVitem())
	}
	return out
}

// ---------------------------------------------------------------- what an item must contain, from the property text
func num64(v interface{}) string {
	switch x := v.(type) {
	case int64:
		return strconv.FormatInt(x, 10)
	case int:
		return strconv.Itoa(x)
	case string:
		return x
	}
	return ""
}

func fieldText(f obj) string {
	v := f["v"]
	switch strings.ToLower(f["k"].(string)) {
	case "date":
		n, _ := strconv.ParseInt(num64(v), 10, 64)
		return time.Unix(n, 0).Format("2006-01-02")
	case "monthyear":
		s := num64(v)
		if len(s) > 4 {
			return s[:4] + "-" + s[4:]
		}
		return s
	case "address":
		m := v.(obj)
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r := ""
		for _, k := range ks {
			r += "\n  " + k + ": " + strings.Join(strings.Split(strings.TrimSpace(m[k].(string)), "\n"), " ")
		}
		return r
	}
	return v.(string)
}

func wantItem(v vitem) string {
	c := func(k string, o interface{}, broken bool) string {
		m, _ := o.(obj)
		s, _ := m[k].(string)
		if broken {
			return ""
		}
		return s
	}
	var b strings.Builder
	fmt.Fprintf(&b, "uid=%s category=%s trashed=%v created=%d updated=%d title=%q url=%q notes=%q", v.uid, catName(v.cat), v.isTrashed(), v.created, v.updated,
		c("title", v.overview, v.badOverview), c("url", v.overview, v.badOverview), c("notesPlain", v.details, v.badDetails || v.badKeys))
	d, _ := v.details.(obj)
	if v.badDetails || v.badKeys {
		d = nil
	}
	p := ""
	fs, _ := d["fields"].(arr)
	for _, f := range fs {
		n, _ := f.(obj)["name"].(string)
		x, _ := f.(obj)["value"].(string)
		if n != "" && x != "" {
			p += fmt.Sprintf("{%q=%q}", strings.Title(n), x)
		}
	}
	if p != "" {
		fmt.Fprintf(&b, "\n      section %q %s", "", p)
	}
	ss, _ := d["sections"].(arr)
	for _, s := range ss {
		ti, _ := s.(obj)["title"].(string)
		p := ""
		fs, _ := s.(obj)["fields"].(arr)
		for _, f := range fs {
			if f.(obj)["v"] != nil {
				p += fmt.Sprintf("{%q=%q}", strings.Title(f.(obj)["t"].(string)), fieldText(f.(obj)))
			}
		}
		if p != "" || ti != "" {
			fmt.Fprintf(&b, "\n      section %q %s", strings.Title(ti), p)
		}
	}
	return b.String()
}

func haveItem(i *domain.Item) string {
	var b strings.Builder
	fmt.Fprintf(&b, "uid=%s category=%s trashed=%v created=%d updated=%d title=%q url=%q notes=%q", i.Uid, i.Category.GetName(), i.Trashed, i.Created, i.Updated, i.Title, i.Url, i.Notes)
	for _, s := range i.Sections {
		fmt.Fprintf(&b, "\n      section %q ", s.Title)
		for _, f := range s.Fields {
			fmt.Fprintf(&b, "{%q=%q}", f.Name, f.Value)
		}
	}
	return b.String()
}

func describe(items []vitem) string {
	var b strings.Builder
	for _, v := range items {
		fmt.Fprintf(&b, "\n    uid=%s category=%s trashed=%v created=%d updated=%d badKeys=%v badOverview=%v badDetails=%v overview=%s details=%s", v.uid, v.cat, js(v.trashed), v.created, v.updated, v.badKeys, v.badOverview, v.badDetails, js(v.overview), js(v.details))
	}
	return b.String()
}

// compare the unlocked session with the vault it was unlocked for.
func checkItems(t *testing.T, w *world, items []vitem, in func() string) {
	t.Helper()
	count := map[bool]int{}
	for _, v := range items {
		if catName(v.cat) == "" {
			if w.facade.GetItem(v.uid, v.isTrashed()) != nil {
				bad(t, "%s\n  item %s of the unknown category %q is there", in(), v.uid, v.cat)
			}
			continue
		}
		count[v.isTrashed()]++
		var it *domain.Item
		guard(t, in, func() { it = w.facade.GetItem(v.uid, v.isTrashed()) })
		if it == nil {
			bad(t, "%s\n  stored item %s is missing", in(), v.uid)
		}
		if h, x := haveItem(it), wantItem(v); h != x {
			bad(t, "%s\n  stored:  %s\n  decoded: %s", in(), x, h)
		}
	}
	for _, tr := range []bool{false, true} {
		if n := w.facade.CountItems(nil, tr); n != count[tr] {
			bad(t, "%s\n  %d items with trashed=%v, the vault has %d", in(), n, tr, count[tr])
		}
		if n := len(w.facade.GetItems(nil, "", tr)); n != count[tr] {
			bad(t, "%s\n  %d items listed with trashed=%v, the vault has %d", in(), n, tr, count[tr])
		}
	}
}

func TestC06(t *testing.T) {
	for n := 0; more(&n, 9000); {
		w := newWorldMem()
		dir := filepath.Join(tmpDir(t), "v")
		items := randVault(rng.Intn(9))
		pass := pick("pw", "", "ü p", "long password 123")
		writeVault(dir, pass, items)
		in := func() string { return "vault with" + describe(items) }
		note(in())
		v := domain.NewVault(dir)
		guard(t, in, func() {
			if err := w.facade.Validate(v); err != nil {
				bad(t, "%s\n  not accepted: %v", in(), err)
			}
			if err := w.facade.Unlock(v, pass); err != nil {
				bad(t, "%s\n  not unlocked: %v", in(), err)
			}
		})
		checkItems(t, w, items, in)
		os.RemoveAll(filepath.Dir(dir))
	}
}

// ---------------------------------------------------------------- C09
func TestC09(t *testing.T) {
	w := newWorldMem()
	for n := 0; more(&n, 5000000); {
		f := randField()
		data := obj{}
		for k, v := range f {
			switch x := v.(type) {
			case int:
				data[k] = float64(x)
			case int64:
				data[k] = float64(x)
			default:
				data[k] = v
			}
		}
		in := func() string { return "section field " + js(f) }
		var got *domain.ItemField
		guard(t, in, func() { got = w.itemSvc.ParseItemField(true, data) })
		if f["v"] == nil {
			if got != nil {
				bad(t, "%s\n  has no value but is shown as %q: %q", in(), got.Name, got.Value)
			}
		} else if got == nil {
			bad(t, "%s\n  is not shown", in())
		} else if want := fieldText(f); got.Value != want || got.Name != strings.Title(f["t"].(string)) {
			bad(t, "%s\n  shown as %q: %q instead of %q: %q", in(), got.Name, got.Value, strings.Title(f["t"].(string)), want)
		}
		p := randPlain()
		in = func() string { return "plain field " + js(p) }
		guard(t, in, func() { got = w.itemSvc.ParseItemField(false, p) })
		nm, _ := p["name"].(string)
		v, _ := p["value"].(string)
		if nm == "" || v == "" {
			if got != nil {
				bad(t, "%s\n  is shown as %q: %q", in(), got.Name, got.Value)
			}
		} else if got == nil || got.Name != strings.Title(nm) || got.Value != v {
			bad(t, "%s\n  shown as %v", in(), js(got))
		}
	}
}

// ---------------------------------------------------------------- C10
func TestC10(t *testing.T) {
	for n := 0; more(&n, 20000); {
		dir := filepath.Join(tmpDir(t), pick("v", "my vault", "a[1]", "x*", "{b}", "v\\a", "ü?"))
		os.MkdirAll(filepath.Join(dir, "default"), 0755)
		want := map[string]string{}
		bands := map[string]obj{}
		order := []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F"}
		for i := rng.Intn(12); i > 0; i-- {
			u := uid()
			b := pick(order...)
			if rng.Intn(3) == 0 {
				b = u[:1]
			}
			if bands[b] == nil {
				bands[b] = obj{}
			}
			e := obj{"uuid": u, "category": pick("001", "002", "110", "999", ""), "created": rng.Intn(1 << 31), "updated": 1 << 33, "k": b64(rnd(rng.Intn(120))), "o": b64(rnd(rng.Intn(90))), "d": b64(rnd(rng.Intn(90))), "hmac": b64(rnd(32)), "fave": 1}
			tr := false
			switch rng.Intn(4) {
			case 0:
				e["trashed"], tr = true, true
			case 1:
				e["trashed"] = false
			case 2:
				e["trashed"] = nil
			}
			bands[b][u] = e
			want[u] = fmt.Sprintf("category=%s k=%s o=%s d=%s hmac=%s created=%d updated=%d trashed=%v", e["category"], e["k"], e["o"], e["d"], e["hmac"], e["created"], e["updated"], tr)
		}
		if rng.Intn(3) == 0 {
			bands[pick(order...)] = obj{}
		}
		nb := 0
		for b, c := range bands {
			ioutil.WriteFile(filepath.Join(dir, "default", "band_"+b+".js"), []byte("ld("+js(c)+");"), 0644)
			nb++
		}
		want2 := want
		if rng.Intn(2) == 0 {
			ioutil.WriteFile(filepath.Join(dir, "default", "folders.js"), []byte("loadFolders({});"), 0644)
		}
		want = map[string]string{}
		for _, c := range bands {
			for u := range c {
				want[u] = want2[u]
			}
		}
		in := func() string { return fmt.Sprintf("vault %q with the bands %s", filepath.Base(dir), js(bands)) }
		note(in())
		w := newWorldMem()
		before := tree(dir)
		var raw []*domain.RawItem
		guard(t, in, func() { raw = w.items.LoadItems(domain.NewVault(dir)) })
		have := map[string]int{}
		for _, r := range raw {
			have[r.Uid]++
			h := fmt.Sprintf("category=%s k=%s o=%s d=%s hmac=%s created=%d updated=%d trashed=%v", r.Category, r.Keys, r.Overview, r.Details, r.Hmac, r.Created, r.Updated, r.Trashed)
			if x, ok := want[r.Uid]; !ok {
				bad(t, "%s\n  item %s is not in any band", in(), r.Uid)
			} else if x != h {
				bad(t, "%s\n  item %s loaded as %s\n  stored as %s", in(), r.Uid, h, x)
			}
		}
		for u := range want {
			if have[u] != 1 {
				bad(t, "%s\n  item %s loaded %d times", in(), u, have[u])
			}
		}
		if tree(dir) != before {
			bad(t, "%s\n  loading changed the vault's files", in())
		}
		os.RemoveAll(filepath.Dir(dir))
	}
}

// ---------------------------------------------------------------- C02
func oracleOpdata(c, key, mkey []byte) ([]byte, bool) {
	if len(c) < 64 || len(key) != 16 && len(key) != 24 && len(key) != 32 {
		return nil, false
	}
	data, m := c[:len(c)-32], c[len(c)-32:]
	if !hmac.Equal(mac(mkey, data), m) {
		return nil, false
	}
	n := int64(binary.LittleEndian.Uint64(data[8:16]))
	body := append([]byte{}, data[32:]...)
	if len(body)%16 != 0 {
		return nil, false
	}
	b, _ := aes.NewCipher(key)
	cipher.NewCBCDecrypter(b, data[16:32]).CryptBlocks(body, body)
	if n < 0 || n > int64(len(body)) {
		return nil, false
	}
	return body[len(body)-int(n):], true
}

func mutate(c []byte) []byte {
	c = append([]byte{}, c...)
	for k := rng.Intn(3); k >= 0; k-- {
		switch rng.Intn(5) {
		case 0:
			if len(c) > 0 {
				c = flip(c)
			}
		case 1:
			if len(c) > 0 {
				c = c[:rng.Intn(len(c))]
			}
		case 2:
			c = append(c, rnd(1+rng.Intn(40))...)
		case 3:
			if len(c) > 2 {
				i := rng.Intn(len(c) - 1)
				c = append(c[:i], c[i+1:]...)
			}
		case 4:
		}
	}
	return c
}

func TestC02(t *testing.T) {
	w := newWorldMem()
	for n := 0; more(&n, 900000); {
		key, mkey := rnd(32), rnd(32)
		plain := rnd(rng.Intn(70))
		c := opdata(plain, key, mkey)
		what := "genuine blob"
		switch rng.Intn(6) {
		case 0:
			c, what = mutate(c), "altered blob"
		case 1:
			// any header and size, correctly authenticated
			body := rnd(16 * rng.Intn(4))
			if rng.Intn(3) == 0 {
				body = rnd(rng.Intn(60))
			}
			var b bytes.Buffer
			b.Write(rnd(8))
			binary.Write(&b, binary.LittleEndian, []int64{int64(len(body)), int64(len(body)) + 1, -1, math.MinInt64, math.MaxInt64, 0, 1, 1 << 32, int64(len(body)) + 1<<32, int64(rng.Intn(100))}[rng.Intn(10)])
			b.Write(rnd(16))
			b.Write(body)
			c, what = append(b.Bytes(), mac(mkey, b.Bytes())...), "authenticated blob with an arbitrary declared length"
		case 2:
			mkey, what = rnd(32), "wrong MAC key"
		case 3:
			d := rnd(rng.Intn(64))
			c, what = append(d, mac(mkey, d)...), "short authenticated blob"
		}
		switch rng.Intn(12) {
		case 0:
			key, what = nil, what+", no key"
		case 1:
			key, what = rnd(rng.Intn(40)), what+", key of another size"
		case 2:
			mkey, what = nil, what+", no MAC key"
		}
		in := func() string { return fmt.Sprintf("%s: opdata=%x key=%x mac key=%x", what, c, key, mkey) }
		want, ok := oracleOpdata(c, key, mkey)
		var got []byte
		var err error
		guard(t, in, func() { got, err = w.keys.DecodeOpdata(append([]byte{}, c...), key, mkey) })
		if ok != (err == nil) || ok && !bytes.Equal(got, want) || !ok && len(got) != 0 {
			bad(t, "%s\n  gives (%x, %v), expected plaintext %x, accepted=%v", in(), got, err, want, ok)
		}
		// item keys
		mk := &domain.Keys{MasterKey: rnd(32), MasterMac: rnd(32)}
		ik := rnd(64)
		blob := itemKeys(ik[:32], ik[32:], mk.MasterKey, mk.MasterMac)
		switch rng.Intn(4) {
		case 0:
			blob = mutate(blob)
		case 1:
			mk.MasterMac = rnd(32)
		case 2:
			if rng.Intn(2) == 0 {
				d := rnd(rng.Intn(120))
				blob = append(d, mac(mk.MasterMac, d)...)
			}
		}
		s := b64(blob)
		if rng.Intn(20) == 0 {
			s = pick("", "%%%", s+"!", s[:len(s)/2])
		}
		in = func() string { return fmt.Sprintf("item keys %q master key %x mac %x", s, mk.MasterKey, mk.MasterMac) }
		wk, wm, wok := oracleItemKeys(s, mk.MasterKey, mk.MasterMac)
		var gk, gm []byte
		guard(t, in, func() { gk, gm = w.keys.ItemKeys(&domain.RawItem{Keys: s}, mk) })
		if wok {
			if !bytes.Equal(gk, wk) || !bytes.Equal(gm, wm) {
				bad(t, "%s\n  gives (%x, %x), expected (%x, %x)", in(), gk, gm, wk, wm)
			}
		} else if len(gk) != 0 || len(gm) != 0 {
			bad(t, "%s\n  does not authenticate but gives (%x, %x)", in(), gk, gm)
		}
	}
}

func oracleItemKeys(s string, key, mkey []byte) ([]byte, []byte, bool) {
	c, err := unb64(s)
	if err != nil || len(c) < 112 {
		return nil, nil, false
	}
	data, m := c[:len(c)-32], c[len(c)-32:]
	if !hmac.Equal(mac(mkey, data), m) || (len(data)-16)%16 != 0 {
		return nil, nil, false
	}
	b, _ := aes.NewCipher(key)
	o := append([]byte{}, data[16:]...)
	cipher.NewCBCDecrypter(b, data[:16]).CryptBlocks(o, o)
	return o[:32], o[32:64], true
}

// ---------------------------------------------------------------- C01, C03: sessions
type session struct {
	w     *world
	dirs  []string
	pass  []string
	items [][]vitem
	keys  []vaultKeys
	open  int // vault that is unlocked, -1: locked
	prof  int // profile loaded last
	log   []string
}

func newSession(t *testing.T) *session {
	s := &session{w: newWorldMem(), open: -1, prof: -1}
	base := tmpDir(t)
	for i := 0; i < 2; i++ {
		d := filepath.Join(base, fmt.Sprintf("v%d", i))
		p := pick("pw", "Pw", "", " pw", "pässword", "a much longer password than that")
		it := randVault(1 + rng.Intn(4))
		s.dirs, s.pass, s.items = append(s.dirs, d), append(s.pass, p), append(s.items, it)
		s.keys = append(s.keys, writeVault(d, p, it))
	}
	return s
}

func (s *session) in() string { return "two vaults, " + strings.Join(s.log, "; ") }

func (s *session) check(t *testing.T) {
	t.Helper()
	f := s.w.facade
	if f.IsUnlocked() != (s.open >= 0) {
		bad(t, "%s\n  reports unlocked=%v", s.in(), f.IsUnlocked())
	}
	if s.open < 0 {
		n := 0
		for _, tr := range []bool{true, false} {
			n += f.CountItems(nil, tr) + len(f.GetItems(nil, "", tr))
			for _, c := range domain.ItemCategoryEnum.GetValues() {
				n += f.CountItems(c, tr) + len(f.GetItems(c, "", tr))
			}
			for _, l := range s.items {
				for _, v := range l {
					if f.GetItem(v.uid, tr) != nil {
						n++
					}
				}
			}
		}
		if n != 0 {
			bad(t, "%s\n  the locked session still answers with items", s.in())
		}
		return
	}
	checkItems(t, s.w, s.items[s.open], s.in)
}

func (s *session) validate(t *testing.T, i int) {
	s.log = append(s.log, fmt.Sprintf("validate v%d", i))
	note(s.in())
	if err := s.w.facade.Validate(domain.NewVault(s.dirs[i])); err != nil {
		bad(t, "%s\n  not accepted: %v", s.in(), err)
	}
	s.prof = i
}

func (s *session) lock(t *testing.T) {
	s.log = append(s.log, "lock")
	guard(t, s.in, func() { s.w.facade.Lock() })
	s.open = -1
}

func TestC03(t *testing.T) {
	for n := 0; more(&n, 4000); {
		s := newSession(t)
		guard(t, s.in, func() { s.check(t) })
		for k := 0; k < 14; k++ {
			i := rng.Intn(2)
			switch rng.Intn(5) {
			case 0:
				s.lock(t)
			case 1:
				if s.open < 0 {
					s.validate(t, i)
				}
			default:
				if s.open >= 0 && rng.Intn(2) == 0 {
					s.lock(t)
				}
				if s.open < 0 && s.prof != i {
					s.validate(t, i)
				}
				i = s.prof
				p, ok := s.pass[i], true
				if rng.Intn(3) == 0 {
					p = p + pick("x", " ", "\n", "P")
					ok = false
				}
				s.log = append(s.log, fmt.Sprintf("unlock v%d with %q", i, p))
				note(s.in())
				var err error
				guard(t, s.in, func() { err = s.w.facade.Unlock(domain.NewVault(s.dirs[i]), p) })
				if (err == nil) != ok {
					bad(t, "%s\n  unlock gives %v", s.in(), err)
				}
				if ok && s.open < 0 {
					s.open = i
				}
			}
			guard(t, s.in, func() { s.check(t) })
		}
		os.RemoveAll(filepath.Dir(s.dirs[0]))
	}
}

func TestC01(t *testing.T) {
	for n := 0; more(&n, 8000); {
		s := newSession(t)
		i := rng.Intn(2)
		k := s.keys[i]
		prof := obj{}
		for a, b := range k.profile {
			prof[a] = b
		}
		p, ok, what := s.pass[i], true, "genuine profile"
		switch rng.Intn(12) {
		case 0, 1:
			p, ok, what = p+pick("x", " ", "\x00y", "\n"), false, "wrong password"
		case 2:
			if p != strings.ToUpper(p) {
				p, ok, what = strings.ToUpper(p), false, "password in another case"
			}
		case 3:
			b, _ := unb64(prof["masterKey"].(string))
			prof["masterKey"], ok, what = b64(flip(b)), false, "altered master key blob"
		case 4:
			b, _ := unb64(prof["overviewKey"].(string))
			prof["overviewKey"], ok, what = b64(flip(b)), false, "altered overview key blob"
		case 5:
			b, _ := unb64(prof["overviewKey"].(string))
			prof["overviewKey"], ok, what = b64(b[:rng.Intn(len(b))]), false, "truncated overview key blob"
		case 6:
			prof["iterations"], ok, what = prof["iterations"].(int)+1, false, "another iteration count"
		case 7:
			b, _ := unb64(prof["salt"].(string))
			prof["salt"], ok, what = b64(flip(b)), false, "another salt"
		case 8:
			f := pick("masterKey", "overviewKey", "salt")
			prof[f], ok, what = "!"+prof[f].(string), false, f+" is not base64"
		case 9:
			// both blobs authenticate but the second declares an impossible length
			b, _ := unb64(prof["overviewKey"].(string))
			b = b[:len(b)-32]
			binary.LittleEndian.PutUint64(b[8:16], 1<<40)
			prof["overviewKey"], ok, what = b64(append(b, mac(k.derived[32:], b)...)), false, "authenticated overview key blob with an impossible length"
		}
		if rng.Intn(3) == 0 {
			// another session is open already
			j := 1 - i
			s.validate(t, j)
			if err := s.w.facade.Unlock(domain.NewVault(s.dirs[j]), s.pass[j]); err != nil {
				bad(t, "%s\n  vault not unlocked with its own password %q: %v", s.in(), s.pass[j], err)
			}
			s.open = j
		}
		writeProfile(s.dirs[i], vaultKeys{profile: prof})
		s.validate(t, i)
		s.log = append(s.log, fmt.Sprintf("unlock v%d with %q (%s): profile %s, vault password %q", i, p, what, js(prof), s.pass[i]))
		note(s.in())
		var err error
		guard(t, s.in, func() { err = s.w.facade.Unlock(domain.NewVault(s.dirs[i]), p) })
		if ok != (err == nil) || !ok && err != domain.ErrInvalidPass {
			bad(t, "%s\n  unlock gives %v", s.in(), err)
		}
		if ok && s.open < 0 {
			s.open = i
		}
		guard(t, s.in, func() { s.check(t) })
		os.RemoveAll(filepath.Dir(s.dirs[0]))
	}
}
