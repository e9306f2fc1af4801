package verif

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/mashmb/1pass/1pass-core/core/domain"
)

// reuse empties the session, sometimes by starting a new one.
func reuse(w **world) {
	if rng.Intn(4) == 0 {
		*w = newWorldMem()
	} else {
		(*w).items.RemoveItems()
	}
}

// C04: listing returns exactly the matching items, sorted.
func TestC04(t *testing.T) {
	w := newWorldMem()
	for n := 0; more(&n, 4000); {
		reuse(&w)
		size := rng.Intn(7)
		if rng.Intn(10) == 0 {
			size = 20 + rng.Intn(30)
		}
		items := randItems(size, []int{1, 2, 3, 18}[rng.Intn(4)])
		w.items.StoreItems(items)
		var cat *domain.ItemCategory
		if rng.Intn(2) == 0 {
			cat, _ = domain.ItemCategoryEnum.FromCode(cats[rng.Intn(3)][0])
		}
		title := pick("", "", "a", "B", "alpha", "ALPHA", "mail", "Äö", "äö", "zz", " ", "x y", "%")
		if len(items) > 0 && rng.Intn(2) == 0 {
			// part of a title, in another case, perhaps with a blank more
			x := items[rng.Intn(len(items))].Title
			if len(x) > 1 {
				a := rng.Intn(len(x))
				b := a + 1 + rng.Intn(len(x)-a)
				title = x[a:b]
			}
			title = pick(strings.ToLower(title), strings.ToUpper(title), title, title+" ", " "+title)
		}
		trashed := rng.Intn(2) == 0
		in := func() string {
			c := "any"
			if cat != nil {
				c = cat.GetName()
			}
			return fmt.Sprintf("list category=%s title=%q trashed=%v of%s", c, title, trashed, dump(items))
		}
		var got []*domain.SimpleItem
		guard(t, in, func() { got = w.facade.GetItems(cat, title, trashed) })
		row := func(u, ti, c string, tr bool) string { return fmt.Sprintf("%s|%s|%s|%v", u, ti, c, tr) }
		var want, have []string
		for _, i := range items {
			if i.Trashed == trashed && (cat == nil || i.Category == cat) && (title == "" || strings.Contains(strings.ToLower(i.Title), strings.ToLower(title))) {
				want = append(want, row(i.Uid, i.Title, i.Category.GetCode(), i.Trashed))
			}
		}
		for k, g := range got {
			if g == nil || g.Category == nil {
				bad(t, "%s\n  entry %d is empty", in(), k)
			}
			have = append(have, row(g.Uid, g.Title, g.Category.GetCode(), g.Trashed))
			if k > 0 && (got[k-1].Category.GetCode() > g.Category.GetCode() || got[k-1].Category.GetCode() == g.Category.GetCode() && got[k-1].Title > g.Title) {
				bad(t, "%s\n  entries %d and %d are out of order: %s, %s", in(), k-1, k, have[k-1], have[k])
			}
		}
		sort.Strings(want)
		sort.Strings(have)
		if strings.Join(want, "\n") != strings.Join(have, "\n") {
			bad(t, "%s\n  listed %q\n  expected %q", in(), have, want)
		}
	}
}

// C05: counts and lookups agree with the stored items.
func TestC05(t *testing.T) {
	w := newWorldMem()
	for n := 0; more(&n, 4000); {
		reuse(&w)
		items := randItems(rng.Intn(8), []int{1, 2, 18}[rng.Intn(3)])
		w.items.StoreItems(items)
		in := func() string { return "items" + dump(items) }
		guard(t, in, func() {
			for _, tr := range []bool{false, true} {
				for k := -1; k < len(cats); k++ {
					var cat *domain.ItemCategory
					want := 0
					if k >= 0 {
						cat, _ = domain.ItemCategoryEnum.FromCode(cats[k][0])
					}
					for _, i := range items {
						if i.Trashed == tr && (cat == nil || i.Category == cat) {
							want++
						}
					}
					if got := w.facade.CountItems(cat, tr); got != want {
						bad(t, "%s\n  count of category %d, trashed %v is %d, expected %d", in(), k, tr, got, want)
					}
				}
				us := []string{"", "nope", uid()}
				for _, i := range items {
					us = append(us, i.Uid, strings.ToLower(i.Uid), i.Uid[:31], i.Uid+"0")
				}
				for _, u := range us {
					var want *domain.Item
					for _, i := range items {
						if want == nil && i.Uid == u && i.Trashed == tr {
							want = i
						}
					}
					if got := w.facade.GetItem(u, tr); got != want {
						bad(t, "%s\n  lookup of %q, trashed %v gives %v, expected %v", in(), u, tr, got, want)
					}
				}
			}
		})
	}
}

// C20: names and codes map one-to-one to their values.
func TestC20(t *testing.T) {
	check := func(when string) {
		seen := map[*domain.ItemCategory]bool{}
		for _, c := range cats {
			a, err := domain.ItemCategoryEnum.FromCode(c[0])
			if err != nil || a == nil || a.GetCode() != c[0] || a.GetName() != c[1] {
				bad(t, "%s: category code %s resolves to %v (%v), expected %s", when, c[0], a, err, c[1])
			}
			if seen[a] {
				bad(t, "%s: category code %s resolves to a category that another code also gives", when, c[0])
			}
			seen[a] = true
			for _, nm := range []string{c[1], strings.ToLower(c[1]), strings.ToUpper(c[1]), strings.ToLower(c[1][:1]) + strings.ToUpper(c[1][1:])} {
				b, err := domain.ItemCategoryEnum.FromName(nm)
				if err != nil || b != a {
					bad(t, "%s: category name %q resolves to %v (%v), expected %s", when, nm, b, err, c[1])
				}
			}
		}
		for _, x := range []string{"", "000", "006", "098", "112", "1", "01", "0010", "Login", "tombston", "logins", " login", "999", "Ssn ", "credit  card", "creditcard"} {
			if strings.ToLower(x) != "login" {
				if b, err := domain.ItemCategoryEnum.FromName(x); err != domain.ErrUnknownItemCat || b != nil {
					bad(t, "%s: category name %q resolves to %v (%v)", when, x, b, err)
				}
			}
			if b, err := domain.ItemCategoryEnum.FromCode(x); err != domain.ErrUnknownItemCat || b != nil {
				bad(t, "%s: category code %q resolves to %v (%v)", when, x, b, err)
			}
		}
		known := map[string]bool{}
		for _, c := range cats {
			known[strings.ToLower(c[1])], known[c[0]] = true, true
		}
		for _, c := range cats {
			for _, x := range c {
				for k := 0; k <= len(x); k++ {
					for _, y := range []string{x[:k], x[k:], x[:k] + "x" + x[k:], x[:k] + " " + x[k:]} {
						if known[strings.ToLower(y)] {
							continue
						}
						if b, err := domain.ItemCategoryEnum.FromName(y); err != domain.ErrUnknownItemCat || b != nil {
							bad(t, "%s: category name %q resolves to %v (%v)", when, y, b, err)
						}
						if b, err := domain.ItemCategoryEnum.FromCode(y); err != domain.ErrUnknownItemCat || b != nil {
							bad(t, "%s: category code %q resolves to %v (%v)", when, y, b, err)
						}
					}
				}
			}
		}
		vs := domain.ItemCategoryEnum.GetValues()
		if len(vs) != 18 {
			bad(t, "%s: %d categories are listed", when, len(vs))
		}
		for _, v := range vs {
			delete(seen, v)
		}
		if len(seen) != 0 {
			bad(t, "%s: some category is not listed", when)
		}
		for _, x := range [][2]string{{"address", "address"}, {"date", "date"}, {"monthyear", "monthYear"}} {
			for _, nm := range []string{x[0], x[1], strings.ToUpper(x[0])} {
				d, err := domain.DataTypeEnum.FromName(nm)
				if err != nil || d == nil || d.GetName() != x[1] {
					bad(t, "%s: data type %q resolves to %v (%v)", when, nm, d, err)
				}
			}
		}
		for _, x := range []string{"", "dates", "string", "month", "addres", "month year"} {
			if d, err := domain.DataTypeEnum.FromName(x); err != domain.ErrUnknownDataType || d != nil {
				bad(t, "%s: data type %q resolves to %v (%v)", when, x, d, err)
			}
		}
		for _, x := range []string{"y", "Y", "n", "N"} {
			l, err := domain.LogicValEnum.FromName(x)
			if err != nil || l == nil || l.GetValue() != (x == "y" || x == "Y") || l.GetName() != strings.ToLower(x) || domain.LogicValEnum.FromValue(l.GetValue()) != l {
				bad(t, "%s: answer %q resolves to %v (%v)", when, x, l, err)
			}
		}
		for _, x := range []string{"", "yes", "no", "j", "yy", " y", "true", "1"} {
			if l, err := domain.LogicValEnum.FromName(x); err != domain.ErrUnknownLogicVal || l != nil {
				bad(t, "%s: answer %q resolves to %v (%v)", when, x, l, err)
			}
		}
	}
	guard(t, func() string { return "name and code lookups" }, func() { check("at start") })
	guard(t, func() string { return "name and code lookups after lookups" }, func() { check("after a round of lookups") })
	for n := 0; more(&n, 50); {
		w := newWorldMem()
		w.items.StoreItems(randItems(5, 18))
		w.facade.GetItems(nil, "", false)
		vs := domain.ItemCategoryEnum.GetValues()
		sort.Slice(vs, func(i, j int) bool { return vs[i].GetCode() < vs[j].GetCode() })
		guard(t, func() string { return "name and code lookups after listing" }, func() { check("after listing and sorting the categories") })
	}
}
