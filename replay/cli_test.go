package verif

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	corefacade "github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"github.com/mashmb/1pass/1pass-term/control/cobra"
)

// openVault is the real vault facade over items that are already in memory.
type openVault struct{ corefacade.VaultFacade }

func (o *openVault) Validate(*domain.Vault) error       { return nil }
func (o *openVault) Unlock(*domain.Vault, string) error { return nil }

func randShown(n int) []*domain.Item {
	cs := domain.ItemCategoryEnum.GetValues()
	var res []*domain.Item
	txt := func() string {
		return pick("", "title", "100% %s %d", "two\nlines", "ünïcode", " x ", strings.Repeat("long ", 30), "\"q\"", "a: b")
	}
	for i := 0; i < n; i++ {
		var ss []*domain.ItemSection
		for k := rng.Intn(5) - 1; k >= 0; k-- {
			var fs []*domain.ItemField
			for j := rng.Intn(5); j > 0; j-- {
				fs = append(fs, domain.NewItemField(txt(), txt()))
			}
			ss = append(ss, domain.NewItemSection(txt(), fs))
		}
		u := fmt.Sprintf("UID%d", i)
		if len(res) > 0 && rng.Intn(3) == 0 {
			u = res[rng.Intn(len(res))].Uid
		}
		it := domain.NewItem(u, txt(), txt(), txt(), rng.Intn(2) == 0, cs[rng.Intn(len(cs))], ss, int64(rng.Intn(1<<31)), int64(rng.Intn(1<<31)))
		dup := false
		for _, o := range res {
			dup = dup || o.Uid == u && o.Trashed == it.Trashed
		}
		if !dup {
			res = append(res, it)
		}
	}
	return res
}

func shownText(it *domain.Item) string {
	return fmt.Sprintf("item uid=%s trashed=%v category=%s %s", it.Uid, it.Trashed, it.Category.GetName(), dump1(it))
}

func dump1(it *domain.Item) string {
	s := fmt.Sprintf("title=%q url=%q notes=%q", it.Title, it.Url, it.Notes)
	for _, x := range it.Sections {
		s += fmt.Sprintf(" section %q", x.Title)
		for _, f := range x.Fields {
			s += fmt.Sprintf(" {%q=%q}", f.Name, f.Value)
		}
	}
	return s
}

func show(t *testing.T, items []*domain.Item, overview bool, uid string, trashed bool, in string) string {
	w := newWorldMem()
	w.items.StoreItems(items)
	dir := filepath.Join(scratch, "conf")
	cs := corefacade.NewDfltConfigFacade(service.NewDfltConfigService(file.NewFileConfigRepo(dir)))
	if !cs.IsConfigAvailable() {
		cs.SaveConfig(mkConfig("", 1, true, 1))
	}
	ctrl := cobra.NewCobraCliControl(cs, &noUpdates{}, &openVault{w.facade})
	var got string
	guard(t, func() string { return in }, func() {
		got = quiet("", func() {
			if overview {
				ctrl.GetItemOverview("v", uid, trashed)
			} else {
				ctrl.GetItemDetails("v", uid, trashed)
			}
		})
	})
	return got
}

func asked(items []*domain.Item) (string, bool, *domain.Item) {
	u, tr := fmt.Sprintf("UID%d", rng.Intn(7)), rng.Intn(2) == 0
	if len(items) > 0 && rng.Intn(4) != 0 {
		it := items[rng.Intn(len(items))]
		u, tr = it.Uid, it.Trashed
	}
	for _, it := range items {
		if it.Uid == u && it.Trashed == tr {
			return u, tr, it
		}
	}
	return u, tr, nil
}

func TestC07(t *testing.T) {
	for n := 0; more(&n, 6000); {
		items := randShown(rng.Intn(5))
		var other []*domain.Item
		for _, it := range items {
			var ss []*domain.ItemSection
			for k, s := range it.Sections {
				var fs []*domain.ItemField
				for j, f := range s.Fields {
					fs = append(fs, domain.NewItemField(f.Name, pick("", "s3cret", fmt.Sprintf("v%d.%d", k, j), f.Value, f.Value+"x", "two\nlines %d")))
				}
				ss = append(ss, domain.NewItemSection(s.Title, fs))
			}
			notes := it.Notes
			if notes != "" {
				notes = pick("n0te", "x", "long\nnote", "%s", notes+"x")
			}
			other = append(other, domain.NewItem(it.Uid, it.Title, it.Url, notes, it.Trashed, it.Category, ss, it.Created, it.Updated))
		}
		u, tr, it := asked(items)
		in := fmt.Sprintf("overview of uid=%s trashed=%v", u, tr)
		if it != nil {
			for k := range items {
				if items[k] == it {
					in += "\n    " + shownText(it) + "\n    and " + shownText(other[k])
				}
			}
		}
		note(in)
		if a, b := show(t, items, true, u, tr, in), show(t, other, true, u, tr, in); a != b {
			bad(t, "%s\n  the overview depends on values or notes:\n%s\n  and\n%s", in, a, b)
		}
	}
}

func TestC08(t *testing.T) {
	for n := 0; more(&n, 6000); {
		items := randShown(rng.Intn(5))
		u, tr, it := asked(items)
		in := fmt.Sprintf("details of uid=%s trashed=%v among %d items", u, tr, len(items))
		for _, x := range items {
			in += "\n    " + shownText(x)
		}
		note(in)
		got := show(t, items, false, u, tr, in)
		rest := got
		want := func(s string) {
			i := strings.Index(rest, s)
			if i < 0 {
				bad(t, "%s\n  the details lack %q (in this place):\n%s", in, s, got)
				return
			}
			rest = rest[i+len(s):]
		}
		if it == nil {
			want(u)
			if strings.Contains(got, "Trashed:") {
				bad(t, "%s\n  there is no such item, but one is shown:\n%s", in, got)
			}
			continue
		}
		want(it.Category.GetName())
		want(it.Title)
		want(fmt.Sprintf("Trashed: %v", it.Trashed))
		if it.Url != "" {
			want(it.Url)
		}
		for _, s := range it.Sections {
			want(s.Title)
			for _, f := range s.Fields {
				want(f.Name + ": " + f.Value)
			}
		}
		if it.Notes != "" {
			want(it.Notes)
		}
	}
}

// ---------------------------------------------------------------- C18
// the child runs one command against one path and may end with os.Exit
func init() {
	if os.Getenv("VERIF_CHILD") == "" {
		return
	}
	scratch = os.Getenv("VERIF_SCRATCH")
	rng = rand.New(rand.NewSource(1))
	a := strings.Split(os.Getenv("VERIF_CHILD"), "\x01")
	w := newWorldMem()
	cs := corefacade.NewDfltConfigFacade(service.NewDfltConfigService(file.NewFileConfigRepo(a[3])))
	if !cs.IsConfigAvailable() {
		cs.SaveConfig(mkConfig("", 1, true, 1))
	}
	ctrl := cobra.NewCobraCliControl(cs, &noUpdates{}, w.facade)
	switch a[0] {
	case "details":
		ctrl.GetItemDetails(a[1], a[2], false)
	case "overview":
		ctrl.GetItemOverview(a[1], a[2], false)
	default:
		ctrl.GetItems(a[1], "", "", false)
	}
	os.Exit(0)
}

func TestC18(t *testing.T) {
	for n := 0; more(&n, 3000); {
		base := tmpDir(t)
		dir := filepath.Join(base, pick("v", "a b", "ö", "x.opvault"))
		desc := ""
		item := vitem{uid: uid(), cat: "001", trashed: false, created: 1, updated: 2, overview: obj{"title": "TheShownTitle"}, details: obj{}}
		pass := pick("", "", "pw")
		ok := false
		arg := dir
		switch k := rng.Intn(9); k {
		case 0:
			desc = "nothing there"
		case 1:
			desc = "a file"
			os.WriteFile(dir, []byte("x"), 0644)
		case 2:
			desc = "an empty directory"
			os.MkdirAll(dir, 0755)
		case 3:
			desc = "a directory with an empty default"
			os.MkdirAll(filepath.Join(dir, "default"), 0755)
		case 4:
			desc = "default is a file"
			os.MkdirAll(dir, 0755)
			os.WriteFile(filepath.Join(dir, "default"), []byte("x"), 0644)
		case 5:
			desc = "profile.js is a directory"
			os.MkdirAll(filepath.Join(dir, "default", "profile.js"), 0755)
		case 6:
			desc = "profile.js beside default"
			writeVault(dir, pass, []vitem{item})
			os.Rename(filepath.Join(dir, "default", "profile.js"), filepath.Join(dir, "profile.js"))
		default:
			desc, ok = "a vault", true
			writeVault(dir, pass, []vitem{item})
			if k == 8 {
				arg += "/"
			}
		}
		in := fmt.Sprintf("path %s: %s, its password is %q", arg, desc, pass)
		note(in)
		w := newWorldMem()
		guard(t, func() string { return in }, func() {
			if err := w.facade.Validate(domain.NewVault(arg)); (err == nil) != ok {
				bad(t, "%s\n  accepted: %v (%v)", in, err == nil, err)
			}
		})
		if rng.Intn(3) == 0 || ok {
			c := pick("details", "overview", "items")
			cmd := exec.Command(os.Args[0])
			cmd.Env = append(os.Environ(), "VERIF_CHILD="+c+"\x01"+arg+"\x01"+item.uid+"\x01"+filepath.Join(base, "conf"))
			b, err := cmd.CombinedOutput()
			shown := strings.Contains(string(b), "TheShownTitle")
			if good := ok && pass == ""; shown != good || (err == nil) != good {
				bad(t, "%s\n  command %s with the password \"\": exit status %v, item shown: %v\n%s", in, c, err, shown, b)
			}
		}
		os.RemoveAll(base)
	}
}
