package verif

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"crypto/md5"
	"encoding/hex"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/mashmb/1pass/1pass-core/core/domain"
	corefacade "github.com/mashmb/1pass/1pass-core/core/facade"
	"github.com/mashmb/1pass/1pass-core/core/service"
	"github.com/mashmb/1pass/1pass-parse/repo/file"
	"github.com/mashmb/1pass/1pass-term/control/cobra"
	"github.com/mashmb/1pass/1pass-up/component/github"
	"gopkg.in/yaml.v2"
)

// ---------------------------------------------------------------- the update server
type server struct {
	sync.Mutex
	feed  []byte
	fail  map[string]bool // path: the connection is cut in the middle of the reply
	files map[string][]byte
	hits  int
	log   []string
}

var srv *server

func serve(t *testing.T) *server {
	if srv != nil {
		return srv
	}
	l, err := net.Listen("tcp", "127.0.0.1:"+os.Getenv("VERIF_PORT"))
	if err != nil {
		t.Skip(err)
	}
	srv = &server{fail: map[string]bool{}, files: map[string][]byte{}}
	hs := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		srv.Lock()
		defer srv.Unlock()
		b, ok := srv.files[r.URL.Path]
		if r.URL.Path == "/releases" {
			srv.hits++
			b, ok = srv.feed, true
		}
		srv.log = append(srv.log, r.URL.Path)
		if srv.fail[r.URL.Path] {
			w.Header().Set("Content-Length", strconv.Itoa(len(b)+10))
			w.Write(b)
			if h, ok := w.(http.Hijacker); ok {
				c, _, _ := h.Hijack()
				c.Close()
			}
			return
		}
		if !ok {
			w.WriteHeader(404)
		}
		w.Write(b)
	})}
	hs.SetKeepAlivesEnabled(false)
	go hs.Serve(l)
	return srv
}

func (s *server) set(feed string, fail bool) {
	s.Lock()
	s.feed, s.hits, s.files, s.fail = []byte(feed), 0, map[string][]byte{}, map[string]bool{"/releases": fail}
	s.Unlock()
}

func (s *server) count() int { s.Lock(); defer s.Unlock(); return s.hits }

func url(p string) string { return "http://127.0.0.1:" + os.Getenv("VERIF_PORT") + p }

// quiet runs f with the standard streams redirected; it returns what f printed.
func quiet(in string, f func()) string {
	so, si := os.Stdout, os.Stdin
	inf, outf := filepath.Join(scratch, "stdin"), filepath.Join(scratch, "stdout")
	ioutil.WriteFile(inf, []byte(in), 0644)
	i, _ := os.Open(inf)
	o, _ := os.Create(outf)
	os.Stdin, os.Stdout = i, o
	defer func() { os.Stdin, os.Stdout = si, so; i.Close(); o.Close() }()
	f()
	b, _ := ioutil.ReadFile(outf)
	return string(b)
}

// ---------------------------------------------------------------- C11
func randConfig() *domain.Config {
	return mkConfig(pick("", "/v", "/home/u/My Vault.opvault", "yes", "1", "null", "~", "a: b", "{x", "'q'", "on", "1.5", " lead", "ä"), 1+rng.Intn(30), rng.Intn(2) == 0, rng.Intn(366))
}

func TestC11(t *testing.T) {
	for n := 0; more(&n, 4000); {
		dir := filepath.Join(tmpDir(t), pick(".config/1pass", "c"))
		cf := filepath.Join(dir, "1pass.yml")
		prior := map[interface{}]interface{}{}
		in := "configuration file missing"
		if rng.Intn(4) != 0 {
			os.MkdirAll(dir, 0755)
			if rng.Intn(4) != 0 {
				if rng.Intn(4) != 0 {
					for i := rng.Intn(5); i > 0; i-- {
						prior[pick("other", "x", "list", "nested", "opVault", "time-out", "Timeout", "update-periods", "vault")] = []interface{}{"text", 7, true, nil, []interface{}{1, "a"}, map[interface{}]interface{}{"k": 2}, 1.5}[rng.Intn(7)]
					}
					if rng.Intn(2) == 0 {
						prior["opvault"] = pick("", "/old", "1 2")
					}
					if rng.Intn(2) == 0 {
						prior["timeout"] = []interface{}{rng.Intn(40), nil}[rng.Intn(2)]
					}
					if rng.Intn(2) == 0 {
						prior["update-notification"] = rng.Intn(2) == 0
					}
					if rng.Intn(2) == 0 {
						prior["update-period"] = rng.Intn(400)
					}
				}
				b, _ := yaml.Marshal(prior)
				if len(prior) == 0 {
					b = []byte(pick("", "\n", "# nothing\n", "---\n", "{}\n", "~\n"))
				}
				ioutil.WriteFile(cf, b, 0644)
				in = fmt.Sprintf("configuration file %q", b)
			} else {
				in = "empty configuration directory"
			}
		}
		note(in)
		guard(t, func() string { return in }, func() {
			read := func(s *domain.Config, where string, want *domain.Config) {
				if *s != *want {
					bad(t, "%s: %s the settings read %+v, expected %+v", in, where, *s, *want)
				}
			}
			get := func(r *service.ConfigService) *domain.Config { return (*r).GetConfig() }
			repo := file.NewFileConfigRepo(dir)
			var cs service.ConfigService = service.NewDfltConfigService(repo)
			want := mkConfig("", 1, true, 1)
			if v := prior["opvault"]; v != nil {
				want.Vault = v.(string)
			}
			if v, ok := prior["timeout"].(int); ok {
				want.Timeout = v
			}
			if v, ok := prior["update-notification"].(bool); ok {
				want.UpdateNotify = v
			}
			if v, ok := prior["update-period"].(int); ok {
				want.UpdatePeriod = v
			}
			read(get(&cs), "after loading", want)
			if cs.IsConfigAvailable() != (len(prior) > 0) {
				bad(t, "%s: available is %v", in, cs.IsConfigAvailable())
			}
			for k := 1 + rng.Intn(3); k > 0; k-- {
				c := randConfig()
				in += fmt.Sprintf("; save %+v", *c)
				note(in)
				cs.SaveConfig(c)
				read(get(&cs), "in the same run", c)
				var o service.ConfigService = service.NewDfltConfigService(file.NewFileConfigRepo(dir))
				read(get(&o), "in a later run", c)
				if rng.Intn(3) == 0 {
					cs = o
				}
			}
			got := map[interface{}]interface{}{}
			b, _ := ioutil.ReadFile(cf)
			if err := yaml.Unmarshal(b, &got); err != nil {
				bad(t, "%s: the saved file does not parse: %v", in, err)
			}
			for k, v := range prior {
				if k == "opvault" || k == "timeout" || k == "update-notification" || k == "update-period" {
					continue
				}
				if g, ok := got[k]; !ok || fmt.Sprint(g) != fmt.Sprint(v) {
					bad(t, "%s: entry %v was %v and is now %v", in, k, v, g)
				}
			}
		})
		os.RemoveAll(dir)
	}
}

// ---------------------------------------------------------------- C12
type countingConfig struct {
	corefacade.ConfigFacade
	saved []domain.Config
}

func (c *countingConfig) SaveConfig(x *domain.Config) {
	c.saved = append(c.saved, *x)
	c.ConfigFacade.SaveConfig(x)
}

type noUpdates struct{ asked int }

func (u *noUpdates) CheckForUpdate(force bool) (*domain.UpdateInfo, error) {
	u.asked++
	return nil, domain.ErrNoUpdate
}
func (u *noUpdates) Update(stage func(int)) error { return domain.ErrNoUpdate }

func TestC12(t *testing.T) {
	for n := 0; more(&n, 6000); {
		dir := filepath.Join(tmpDir(t), "c")
		cs := corefacade.NewDfltConfigFacade(service.NewDfltConfigService(file.NewFileConfigRepo(dir)))
		prev := mkConfig("", 1, true, 1)
		if rng.Intn(3) != 0 {
			prev = randConfig()
			cs.SaveConfig(prev)
		}
		yn := func() string {
			return pick("y", "n", "Y", "N", "", "yes", "no", "yn", " y", "j", "1", "0", "true", "ny", "y")
		}
		num := func(hi int) string {
			return pick("", "0", "1", "-1", strconv.Itoa(hi), strconv.Itoa(hi+1), strconv.Itoa(rng.Intn(hi)), "abc", "1.5", "0x10", "010", "+7", "9223372036854775808", "4294967301", "4294967297", "1e1", " 5", "5x")
		}
		a := []string{yn(), pick("/new/vault", "", "relative", "~/v", "/x/"), yn(), num(30), num(365)}
		if !strings.EqualFold(strings.TrimSpace(a[0]), "y") {
			a = append(a[:1], a[2:]...)
		}
		input := strings.Join(a, "\n") + "\n"
		cut := rng.Intn(12) == 0
		if cut {
			input = strings.Join(a[:rng.Intn(len(a))], "\n")
			if input != "" {
				input += "\n"
			}
			a = strings.Split(strings.TrimSuffix(input, "\n"), "\n")
		}
		in := fmt.Sprintf("settings %+v, answers %q", *prev, input)
		note(in)
		guard(t, func() string { return in }, func() {
			c := &countingConfig{ConfigFacade: cs}
			u := &noUpdates{}
			ctrl := cobra.NewCobraCliControl(c, u, nil)
			quiet(input, func() { ctrl.Configure() })
			want := *prev
			ans := func(k int) string {
				if k < len(a) {
					return strings.TrimSpace(a[k])
				}
				return ""
			}
			k := 0
			if strings.ToLower(ans(0)) == "y" {
				want.Vault = ans(1)
				k = 1
			}
			switch strings.ToLower(ans(k + 1)) {
			case "y":
				want.UpdateNotify = true
			case "n":
				want.UpdateNotify = false
			}
			if v, err := strconv.ParseInt(ans(k+2), 10, 64); err == nil && v >= 1 && v <= 30 {
				want.Timeout = int(v)
			}
			if v, err := strconv.ParseInt(ans(k+3), 10, 64); err == nil && v >= 0 && v <= 365 {
				want.UpdatePeriod = int(v)
			}
			if len(c.saved) != 1 {
				bad(t, "%s: saved %d times", in, len(c.saved))
			}
			got := *cs.GetConfig()
			again := *service.NewDfltConfigService(file.NewFileConfigRepo(dir)).GetConfig()
			if got != want || again != want {
				bad(t, "%s: settings are %+v and read back as %+v, expected %+v", in, got, again, want)
			}
		})
		os.RemoveAll(dir)
	}
}

// ---------------------------------------------------------------- versions and feeds
func randVersion() string {
	if rng.Intn(3) == 0 {
		return pick("1.3.1", "1.3.2", "1.3.0", "1.3", "1.4", "2", "1", "0.9.9", "1.3.1.0", "1.3.1.1", "1.3.1.0.0", "01.3.1", "1.03.2", "1.2.9", "1.2.99", "1.30.0", "10.0.0", "1.3.10", "0.10.10", "1.10.0", "1.3.0.9", "4294967297.0.0", "1.4294967298", "1.3.9007199254740993")
	}
	if rng.Intn(3) == 0 {
		return pick("", "v1.4.0", "1.4.0-rc1", "abc", "1..4", ".", "1.4.", ".2", "1.4.x", "latest", "2.0b", "-2.0", "+2.0", " 2.0", "2.0 ", "2,0", "0x2.0", "1.-1", "2.0.0\n", "v2")
	}
	var p []string
	for i := 1 + rng.Intn(5); i > 0; i-- {
		p = append(p, strconv.Itoa(rng.Intn(5)))
	}
	return strings.Join(p, ".")
}

func versionParts(s string) ([]uint64, bool) {
	var p []uint64
	for _, x := range strings.Split(s, ".") {
		v, err := strconv.ParseUint(x, 10, 64)
		if err != nil {
			return nil, false
		}
		p = append(p, v)
	}
	return p, true
}

func oracleNewer(tag string) bool {
	a, ok := versionParts(tag)
	if !ok {
		return false
	}
	b, _ := versionParts(domain.Version)
	for i := 0; i < len(a) || i < len(b); i++ {
		var x, y uint64
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return x > y
		}
	}
	return false
}

type release struct {
	tag, body, archive, sum string
	json                    string
}

func randRelease() release {
	r := release{tag: randVersion(), body: pick("", "- fixes", "# v2\nnew")}
	assets := arr{}
	add := func(n, u string) {
		assets = append(assets, obj{"name": n, "browser_download_url": u, "id": rng.Intn(100)})
	}
	r.archive, r.sum = url("/a.tar.gz"), url("/c.md5")
	switch rng.Intn(4) {
	case 0:
		add("1pass.tar.gz", r.archive)
		add("checksum.md5", r.sum)
	case 1:
		add("checksum.md5", r.sum)
		add("1pass.tar.gz", r.archive)
	case 2:
		add("notes.txt", url("/n"))
		add("1pass-2.tar.gz", r.archive)
		add("x", url("/x"))
		add("1pass.md5", r.sum)
		add("1pass.zip", url("/z"))
	case 3:
		add("notes.txt", url("/n"))
		r.archive, r.sum = "", ""
	}
	rel := obj{"tag_name": r.tag, "body": r.body, "assets": assets, "name": "x", "draft": false}
	more := arr{rel}
	for i := rng.Intn(3); i > 0; i-- {
		more = append(more, obj{"tag_name": randVersion(), "body": "old", "assets": arr{obj{"name": "old.tar.gz", "browser_download_url": url("/old")}, obj{"name": "old.md5", "browser_download_url": url("/oldsum")}}})
	}
	r.json = js(more)
	return r
}

func TestC16(t *testing.T) {
	s := serve(t)
	up := github.NewGithubUpdater()
	for n := 0; more(&n, 20000); {
		r := randRelease()
		s.set(r.json, false)
		in := "feed " + r.json
		note(in)
		guard(t, func() string { return in }, func() {
			i, err := up.CheckForUpdate(5)
			if err != nil || i == nil {
				bad(t, "%s: result %v, error %v", in, i, err)
			}
			want := domain.NewUpdateInfo(r.archive, r.sum, r.body, r.tag, oracleNewer(r.tag))
			if *i != *want {
				bad(t, "%s: reported %+v, expected %+v", in, *i, *want)
			}
			if rng.Intn(4) == 0 {
				d := filepath.Join(tmpDir(t), "c")
				j, err := service.NewDfltUpdateService(up).CheckForUpdate(1, 5, true, d)
				if want.Newer && (err != nil || j == nil || *j != *want) || !want.Newer && (err != domain.ErrNoUpdate || j != nil) {
					bad(t, "%s: the check ends with %+v, %v", in, j, err)
				}
				os.RemoveAll(filepath.Dir(d))
			}
		})
	}
}

func randJSON(d int) interface{} {
	switch k := rng.Intn(8); {
	case k == 0:
		return nil
	case k == 1:
		return rng.Intn(2) == 0
	case k == 2:
		return rng.Intn(1000) - 500
	case k == 3:
		return pick("", "1.4.0", "x.tar.gz", "x.md5", "..", "a")
	case k == 4 || d <= 0:
		return 1.5
	case k < 6:
		a := arr{}
		for i := rng.Intn(4); i > 0; i-- {
			a = append(a, randJSON(d-1))
		}
		return a
	default:
		o := obj{}
		for i := rng.Intn(4); i > 0; i-- {
			o[pick("assets", "body", "tag_name", "name", "browser_download_url", "z")] = randJSON(d - 1)
		}
		return o
	}
}

func TestC17(t *testing.T) {
	s := serve(t)
	up := github.NewGithubUpdater()
	dir := tmpDir(t)
	for n := 0; more(&n, 20000); {
		var feed string
		switch rng.Intn(6) {
		case 0:
			feed = js(randJSON(4))
		case 1:
			feed = js(arr{randJSON(4), randJSON(1)})
		case 2:
			r := obj{"tag_name": pick("2.0.0", "1", ""), "body": "b", "assets": arr{obj{"name": "a.tar.gz", "browser_download_url": "u"}}}
			r[pick("tag_name", "body", "assets")] = randJSON(3)
			if rng.Intn(3) == 0 {
				delete(r, pick("tag_name", "body", "assets"))
			}
			feed = js(arr{r})
		case 3:
			a := obj{"name": "a.tar.gz", "browser_download_url": "u"}
			a[pick("name", "browser_download_url")] = randJSON(2)
			feed = js(arr{obj{"tag_name": "2.0.0", "body": "b", "assets": arr{a, randJSON(2), nil}}})
		case 4:
			feed = pick("", "null", "[", "[]", "{}", "[null]", "[[]]", "[{}]", "<html>", "[1]", "\"x\"", "[{\"assets\":null}]", "[{\"assets\":[]}]", "[{\"assets\":[],\"tag_name\":\"..\"}]", "[true]", "nul")
		case 5:
			f := []byte(js(arr{obj{"tag_name": "2.0.0", "body": "b", "assets": arr{obj{"name": "a.tar.gz", "browser_download_url": "u"}}}}))
			feed = string(f[:rng.Intn(len(f))])
		}
		fail := rng.Intn(20) == 0
		s.set(feed, fail)
		in := fmt.Sprintf("release feed %q, cut %v", feed, fail)
		note(in)
		guard(t, func() string { return in }, func() {
			i, err := up.CheckForUpdate(5)
			if i != nil && err != nil {
				bad(t, "%s: both a result and an error", in)
			}
			j, err := service.NewDfltUpdateService(up).CheckForUpdate(1, 5, true, filepath.Join(dir, "c"))
			if (j == nil) == (err == nil) {
				bad(t, "%s: the check ends with %v, %v", in, j, err)
			}
			cs := corefacade.NewDfltConfigFacade(service.NewDfltConfigService(file.NewFileConfigRepo(filepath.Join(dir, "none"))))
			os.RemoveAll(filepath.Join(dir, "c2"))
			uf := corefacade.NewDfltUpdateFacade(filepath.Join(dir, "c2"), service.NewDfltConfigService(file.NewFileConfigRepo(filepath.Join(dir, "none"))), service.NewDfltUpdateService(up))
			quiet("", func() { cobra.NewCobraCliControl(cs, uf, nil).CheckForUpdate() })
		})
		b, c := filepath.Join(dir, "bin"), filepath.Join(dir, "sum")
		body := rnd(rng.Intn(50))
		h := md5.Sum(body)
		ok := hex.EncodeToString(h[:])
		sum := pick("", " ", "\n\n", ok, ok+"  1pass\n", " "+ok+" x", strings.ToUpper(ok), "1pass "+ok, ok[:31], ok+"0", "\t"+ok+"\t", "\x00", string(rnd(5)), "0", "*")
		ioutil.WriteFile(b, body, 0644)
		ioutil.WriteFile(c, []byte(sum), 0644)
		in = fmt.Sprintf("checksum file %q for a file with MD5 %s", sum, ok)
		note(in)
		guard(t, func() string { return in }, func() {
			err := up.ValidateChecksum(b, c)
			f := strings.Fields(sum)
			if (err == nil) != (len(f) > 0 && f[0] == ok) {
				bad(t, "%s: %v", in, err)
			}
			if err := up.ValidateChecksum(b, filepath.Join(dir, "missing")); err == nil {
				bad(t, "missing checksum file: accepted")
			}
			if err := up.ValidateChecksum(filepath.Join(dir, "missing"), c); err == nil {
				bad(t, "missing binary: accepted")
			}
		})
	}
}

// ---------------------------------------------------------------- C15
func TestC15(t *testing.T) {
	s := serve(t)
	up := github.NewGithubUpdater()
	for n := 0; more(&n, 8000); {
		home := tmpDir(t)
		dir := filepath.Join(home, ".config", "1pass")
		last := filepath.Join(dir, "lastcheck")
		cfg := mkConfig("", 5, rng.Intn(4) != 0, []int{0, 1, 2, 7, 30, 365, rng.Intn(366)}[rng.Intn(7)])
		now := time.Now().Unix()
		var feed string
		var readable, newer bool
		r := randRelease()
		switch rng.Intn(6) {
		case 0:
			feed, readable = pick("[]", "[null]", "null"), true
		case 1:
			feed = pick("", "{", "<html>", "{}", "3")
		default:
			feed, readable, newer = r.json, true, oracleNewer(r.tag)
		}
		fail := rng.Intn(8) == 0
		if fail {
			readable = false
		}
		if !readable {
			newer = false
		}
		s.set(feed, fail)
		in := fmt.Sprintf("notifications %v, period %d, feed %s, feed cut %v", cfg.UpdateNotify, cfg.UpdatePeriod, feed, fail)
		service.NewDfltConfigService(file.NewFileConfigRepo(dir)).SaveConfig(cfg)
		due := true
		prior := ""
		switch k := rng.Intn(8); k {
		case 0:
			in += ", no last check"
		case 1:
			prior = pick("", "x", "12 34", "1.5", "0x10", "99999999999999999999", "1e9", " ")
		default:
			d := int64(cfg.UpdatePeriod) * 86400
			ago := []int64{0, 60, 43200, 86400 - 60, 86400 + 60, d - 60, d + 60, d - 3600, d + 3600, d / 2, 2 * d, -60, -d - 60, -d + 60, now, rng.Int63n(86400 * 40)}[rng.Intn(16)]
			prior = strconv.FormatInt(now-ago, 10)
			if ago < 0 {
				ago = -ago
			}
			if ago-d < 30 && d-ago < 30 && d != 0 {
				continue
			}
			due = ago >= d
			prior = pick("", "", " ", "\n") + prior + pick("", "\n", " ")
		}
		if !strings.Contains(in, "no last check") {
			ioutil.WriteFile(last, []byte(prior), 0644)
			in += fmt.Sprintf(", last check file %q (now %d)", prior, now)
		}
		mode := rng.Intn(3)
		in += "; " + []string{"automatic check", "automatic check of a command", "forced check"}[mode]
		note(in)
		guard(t, func() string { return in }, func() {
			repo := file.NewFileConfigRepo(dir)
			cs := service.NewDfltConfigService(repo)
			uf := corefacade.NewDfltUpdateFacade(dir, cs, service.NewDfltUpdateService(up))
			asked := due
			shown := ""
			var info *domain.UpdateInfo
			var err error
			switch mode {
			case 0:
				info, err = uf.CheckForUpdate(false)
			case 1:
				asked = due && cfg.UpdateNotify
				shown = quiet("", func() { cobra.NewCobraCliControl(corefacade.NewDfltConfigFacade(cs), uf, nil).CheckForUpdate() })
			case 2:
				asked = true
				info, err = uf.CheckForUpdate(true)
			}
			want := 0
			if asked {
				want = 1
			}
			if got := s.count(); got != want {
				bad(t, "%s: the feed was contacted %d times, expected %d", in, got, want)
			}
			b, e := ioutil.ReadFile(last)
			if asked && readable {
				v, perr := strconv.ParseInt(string(b), 10, 64)
				if e != nil || perr != nil || v < now || v > time.Now().Unix() {
					bad(t, "%s: after a completed check the last-check file holds %q (%v)", in, b, e)
				}
			} else if e == nil && string(b) != prior || e != nil && !strings.Contains(in, "no last check") {
				bad(t, "%s: after a skipped or failed check the last-check file holds %q", in, b)
			}
			report := asked && newer
			if mode == 1 {
				if strings.Contains(shown, "New version") != report || !report && shown != "" || report && !strings.Contains(shown, r.tag) {
					bad(t, "%s: the command prints %q", in, shown)
				}
			} else if report && (err != nil || info == nil || info.Version != r.tag) || !report && (err == nil || info != nil) || !report && (!asked || readable) && err != domain.ErrNoUpdate || asked && !readable && err == domain.ErrNoUpdate {
				bad(t, "%s: the check ends with %+v, %v", in, info, err)
			}
		})
		os.RemoveAll(home)
	}
}

// ---------------------------------------------------------------- C14
type entry struct {
	name string
	typ  byte
	body []byte
	mode int64
}

func tgz(es []entry) []byte {
	var b bytes.Buffer
	g := gzip.NewWriter(&b)
	w := tar.NewWriter(g)
	for _, e := range es {
		h := &tar.Header{Name: e.name, Typeflag: e.typ, Mode: e.mode, Size: int64(len(e.body))}
		if e.typ == tar.TypeSymlink || e.typ == tar.TypeLink {
			h.Linkname, h.Size = "x", 0
		}
		if e.typ == tar.TypeDir {
			h.Size = 0
		}
		if err := w.WriteHeader(h); err != nil {
			continue
		}
		if h.Size > 0 {
			w.Write(e.body)
		}
	}
	w.Close()
	g.Close()
	return b.Bytes()
}

func listing(es []entry) string {
	var b strings.Builder
	for _, e := range es {
		fmt.Fprintf(&b, "\n    %c %q %d bytes mode %o", e.typ, e.name, len(e.body), e.mode)
	}
	return b.String()
}

func TestC14(t *testing.T) {
	up := github.NewGithubUpdater()
	for n := 0; more(&n, 6000); {
		base := tmpDir(t)
		dst := filepath.Join(base, "up", "dst")
		for _, d := range []string{"up/dst/sub/deep", "up/dst2", "up/dstx", "other"} {
			os.MkdirAll(filepath.Join(base, d), 0755)
		}
		for _, f := range []string{"up/victim", "up/dst2/a", "up/dstx/a", "other/a", "victim", "up/dst/old"} {
			ioutil.WriteFile(filepath.Join(base, f), []byte("keep"), 0644)
		}
		var es []entry
		for i := rng.Intn(6); i >= 0; i-- {
			e := entry{name: pick("a", "b", "1pass", "sub/a", "sub/deep/a", "old", "sub/../b", "./a", "a", "b"), typ: tar.TypeReg, body: rnd(rng.Intn(3000)), mode: []int64{0644, 0755, 0600}[rng.Intn(3)]}
			if rng.Intn(5) == 0 {
				e.typ = []byte{tar.TypeDir, tar.TypeSymlink, tar.TypeLink}[rng.Intn(3)]
			}
			if rng.Intn(6) == 0 {
				e.name = pick("../victim", "../../victim", "../dst2/a", "../dstx/a", "sub/../../victim", "..", ".", "", "sub/../../dst2/a", "../dst/a", "../dst2", "a/../../victim")
			}
			if rng.Intn(12) == 0 {
				e.name = pick(base+"/other/a", base+"/victim", "/"+base+"/victim", "/a", dst+"/a", "//b", "/sub/a")
			}
			es = append(es, e)
		}
		data := tgz(es)
		damaged := rng.Intn(8) == 0
		if damaged {
			if rng.Intn(2) == 0 {
				data = data[:rng.Intn(len(data))]
			} else {
				data = flip(data)
			}
		}
		src := filepath.Join(base, "x.tar.gz")
		ioutil.WriteFile(src, data, 0644)
		d := dst + pick("", "", "/", "/.", "/../dst")
		in := fmt.Sprintf("extract into %s, damaged %v, entries:%s", d, damaged, listing(es))
		note(in)
		// what the archive holds
		outside, blocked := false, false
		want := map[string][]byte{}
		for _, e := range es {
			if e.typ != tar.TypeReg {
				continue
			}
			p := filepath.Join(dst, e.name)
			if !strings.HasPrefix(p, dst+"/") {
				outside = true
				continue
			}
			if outside || blocked {
				continue
			}
			if i, err := os.Stat(filepath.Dir(p)); err != nil || !i.IsDir() {
				blocked = true
				continue
			}
			if i, err := os.Stat(p); err == nil && i.IsDir() {
				blocked = true
				continue
			}
			want[p] = e.body
		}
		snap := func() string {
			os.Rename(dst, base+"/../dst.hidden")
			s := tree(base)
			os.Rename(base+"/../dst.hidden", dst)
			return s
		}
		_ = snap
		others := func() string {
			var b strings.Builder
			for _, f := range []string{"up/victim", "up/dst2", "up/dstx", "other", "victim", "x.tar.gz"} {
				b.WriteString(tree(filepath.Join(base, f)))
			}
			for _, d := range []string{base, filepath.Join(base, "up"), filepath.Dir(base)} {
				l, _ := ioutil.ReadDir(d)
				for _, i := range l {
					if i.Name() != "current" {
						b.WriteString(d + "/" + i.Name() + "\n")
					}
				}
			}
			return b.String()
		}
		before := others()
		guard(t, func() string { return in }, func() {
			err := up.ExtractArchive(src, d)
			if after := others(); after != before {
				bad(t, "%s\n  files outside the target changed:\n%s\n  were\n%s", in, after, before)
			}
			if damaged {
				return
			}
			if outside && err == nil {
				bad(t, "%s\n  an entry lands outside the target and the extraction succeeds", in)
			}
			if !outside && !blocked && err != nil {
				bad(t, "%s\n  the extraction fails: %v", in, err)
			}
			if err == nil {
				var ps []string
				for p := range want {
					ps = append(ps, p)
				}
				sort.Strings(ps)
				for _, p := range ps {
					if b, e := ioutil.ReadFile(p); e != nil || !bytes.Equal(b, want[p]) {
						bad(t, "%s\n  %s holds %d bytes (%v), expected %d bytes", in, p, len(b), e, len(want[p]))
					}
				}
				filepath.Walk(dst, func(p string, i os.FileInfo, e error) error {
					if e == nil && i.Mode().IsRegular() && want[p] == nil && filepath.Base(p) != "old" {
						if _, ok := want[p]; !ok {
							bad(t, "%s\n  %s is in no entry of the archive", in, p)
						}
					}
					return nil
				})
			}
		})
		os.RemoveAll(base)
	}
}

// ---------------------------------------------------------------- C13
func copyFile(dst, src string) {
	b, _ := ioutil.ReadFile(src)
	os.Remove(dst)
	ioutil.WriteFile(dst, b, 0755)
}

func TestC13(t *testing.T) {
	s := serve(t)
	cache := os.Getenv("VERIF_CACHE")
	for n := 0; more(&n, 400); {
		home := tmpDir(t)
		bdir := filepath.Join(home, "bin")
		os.MkdirAll(bdir, 0755)
		exe := filepath.Join(bdir, "1pass")
		copyFile(exe, appBin)
		linked := filepath.Join(home, "link")
		os.Link(exe, linked)
		old, _ := ioutil.ReadFile(exe)
		// the release
		body := append([]byte("#!/bin/sh\n# new binary\n"), rnd(200+rng.Intn(2000))...)
		h := md5.Sum(body)
		sum := hex.EncodeToString(h[:])
		es := []entry{{"1pass", tar.TypeReg, body, 0755}}
		scenario := []string{"good", "good", "good", "older", "bad sum", "empty sum", "no binary", "not an archive", "outside entry", "archive cut", "sum cut", "read-only", "feed cut", "answer", "answer", "good with more files", "no sum", "truncated archive", "bad feed", "sum of archive", "sum second", "no archive"}[rng.Intn(22)]
		version, answer := pick("1.3.2", "2.0", "1.10.0"), pick("y", "Y")
		sumFile := sum + pick("", "  1pass\n", "\n")
		replaced := strings.HasPrefix(scenario, "good")
		files := map[string]bool{}
		raw := []byte(nil)
		rel := obj{"tag_name": version, "body": "changes", "assets": arr{obj{"name": "1pass.tar.gz", "browser_download_url": url("/a.tar.gz")}, obj{"name": "checksum.md5", "browser_download_url": url("/c.md5")}}}
		feed := ""
		switch scenario {
		case "older":
			rel["tag_name"] = pick("1.3.1", "1.3.0", "0.9", "x", "1.3")
		case "bad sum":
			sumFile = pick("00"+sum[2:], strings.ToUpper(sum)+"X", sum[:31], "x "+sum, sum+"0")
		case "empty sum":
			sumFile = pick("", " ", "\n")
		case "sum of archive":
			h := md5.Sum(tgz(es))
			sumFile = hex.EncodeToString(h[:])
		case "sum second":
			sumFile = strings.Repeat("0", 32) + "  other\n" + sum + "  1pass\n"
		case "no binary":
			es[0].name = pick("2pass", "1pass/x", "sub/1pass")
		case "not an archive":
			raw = body
		case "truncated archive":
			raw = tgz(es)
			raw = raw[:len(raw)-1-rng.Intn(len(raw)/2)]
		case "outside entry":
			es = append([]entry{{"../../x", tar.TypeReg, body, 0755}}, es...)
		case "archive cut":
			files["/a.tar.gz"] = true
		case "sum cut":
			files["/c.md5"] = true
		case "feed cut":
			files["/releases"] = true
		case "read-only":
			os.Chmod(bdir, 0555)
		case "answer":
			answer = pick("n", "N", "", "yes", "no", "x", "yy", "1", "true", " ")
		case "good with more files":
			es = append(es, entry{"README.md", tar.TypeReg, []byte("x"), 0644})
			es = append([]entry{{"LICENSE", tar.TypeReg, []byte("y"), 0644}}, es...)
		case "no sum":
			rel["assets"] = arr{obj{"name": "1pass.tar.gz", "browser_download_url": url("/a.tar.gz")}}
		case "no archive":
			rel["assets"] = arr{obj{"name": "checksum.md5", "browser_download_url": url("/c.md5")}}
		case "bad feed":
			feed = pick("[]", "{}", "", "[null]", "x")
		}
		if feed == "" && scenario != "bad feed" {
			feed = js(arr{rel})
		}
		s.set(feed, false)
		s.Lock()
		if raw == nil {
			raw = tgz(es)
		}
		s.files["/a.tar.gz"], s.files["/c.md5"], s.fail = raw, []byte(sumFile), files
		s.log = nil
		s.Unlock()
		// left over from an earlier run
		os.RemoveAll(cache)
		if rng.Intn(2) == 0 {
			os.MkdirAll(filepath.Join(cache, "extracted"), 0755)
			ioutil.WriteFile(filepath.Join(cache, "extracted", "1pass"), body, 0755)
			ioutil.WriteFile(filepath.Join(cache, "checksum.md5"), []byte(sum), 0644)
			scenario += ", files of an earlier run in the cache"
		}
		in := fmt.Sprintf("update: %s; feed %s; answer %q; checksum file %q for a binary with MD5 %s", scenario, feed, answer, sumFile, sum)
		note(in)
		cmd := exec.Command(exe, "update")
		cmd.Env = append(os.Environ(), "HOME="+home)
		cmd.Dir = home
		cmd.Stdin = strings.NewReader(answer + "\n")
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		done := make(chan bool)
		gone := make(chan string, 1)
		go func() {
			for {
				select {
				case <-done:
					close(gone)
					return
				default:
					i, err := os.Stat(exe)
					if err != nil || i.Size() != int64(len(old)) && i.Size() != int64(len(body)) {
						gone <- fmt.Sprint(i, err)
						<-done
						close(gone)
						return
					}
				}
			}
		}()
		err := cmd.Start()
		if err == nil {
			tm := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
			err = cmd.Wait()
			tm.Stop()
		}
		done <- true
		if g, ok := <-gone; ok {
			bad(t, "%s: the binary is not replaced in one step: %s", in, g)
		}
		os.Chmod(bdir, 0755)
		now, rerr := ioutil.ReadFile(exe)
		kept, _ := ioutil.ReadFile(linked)
		if strings.Contains(out.String(), "goroutine 1") {
			bad(t, "%s: the program crashes:\n%s", in, out.String())
		}
		if !bytes.Equal(kept, old) {
			bad(t, "%s: the old binary was overwritten in place", in)
		}
		if replaced {
			if err != nil || rerr != nil || !bytes.Equal(now, body) {
				bad(t, "%s: the update does not install the new binary (%v, %v):\n%s", in, err, rerr, out.String())
			}
		} else {
			if rerr != nil || !bytes.Equal(now, old) {
				bad(t, "%s: the installed binary changed (%v):\n%s", in, rerr, out.String())
			}
			if err == nil {
				bad(t, "%s: the failed update ends with exit status 0:\n%s", in, out.String())
			}
		}
		if l, _ := ioutil.ReadDir(bdir); len(l) != 1 {
			bad(t, "%s: extra files beside the binary", in)
		}
		os.RemoveAll(home)
	}
}

var _ = rand.Int
var _ = io.EOF

func mkConfig(vault string, timeout int, notify bool, period int) *domain.Config {
	return &domain.Config{Vault: vault, Timeout: timeout, UpdateNotify: notify, UpdatePeriod: period}
}
