From 1edf96af4e4ee0725a216183ea27e835c621ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:01 +0000
Subject: [PATCH 01/18] fix: reject truncated opdata, partial blocks and
 impossible plaintext sizes instead of panicking

---
 1pass-core/core/domain/error.go       |  1 +
 1pass-core/core/service/keyservice.go | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/1pass-core/core/domain/error.go b/1pass-core/core/domain/error.go
index d629915..accf65b 100644
--- a/1pass-core/core/domain/error.go
+++ b/1pass-core/core/domain/error.go
@@ -11,6 +11,7 @@ import (
 var (
 	ErrInvalidMd5      = errors.New("invalid MD5 checksum")
 	ErrInvalidHmac     = errors.New("invalid HMAC")
+	ErrInvalidOpdata   = errors.New("invalid opdata")
 	ErrInvalidPass     = errors.New("invalid password")
 	ErrInvalidVault    = errors.New("invalid vault (%v)")
 	ErrNoUpdate        = errors.New("up to date")
diff --git a/1pass-core/core/service/keyservice.go b/1pass-core/core/service/keyservice.go
index 7bc3702..9132272 100644
--- a/1pass-core/core/service/keyservice.go
+++ b/1pass-core/core/service/keyservice.go
@@ -59,6 +59,10 @@ func (s *dfltKeyService) DecodeData(key, initVector, data []byte) ([]byte, error
 		return nil, err
 	}
 
+	if len(initVector) != aes.BlockSize || len(data)%aes.BlockSize != 0 {
+		return nil, domain.ErrInvalidOpdata
+	}
+
 	mode := cipher.NewCBCDecrypter(block, initVector)
 	mode.CryptBlocks(data, data)
 
@@ -84,6 +88,10 @@ func (s *dfltKeyService) DecodeKeys(key, derivedKey, derivedMac []byte) ([]byte,
 }
 
 func (s *dfltKeyService) DecodeOpdata(cipherText, key, macKey []byte) ([]byte, error) {
+	if len(cipherText) < 64 {
+		return nil, domain.ErrInvalidOpdata
+	}
+
 	data, mac := cipherText[:len(cipherText)-32], cipherText[len(cipherText)-32:]
 
 	if err := s.CheckHmac(data, macKey, mac); err != nil {
@@ -103,6 +111,10 @@ func (s *dfltKeyService) DecodeOpdata(cipherText, key, macKey []byte) ([]byte, e
 		return nil, err
 	}
 
+	if plainSize < 0 || plainSize > int64(len(plain)) {
+		return nil, domain.ErrInvalidOpdata
+	}
+
 	return plain[len(plain)-int(plainSize):], nil
 }
 
-- 
2.43.0


From 64245268385efcb9261f977a1077d8dbf82e3d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:01 +0000
Subject: [PATCH 02/18] fix: verify the MAC of item keys under the master MAC
 key before using them

---
 1pass-core/core/service/keyservice.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/1pass-core/core/service/keyservice.go b/1pass-core/core/service/keyservice.go
index 9132272..e4c5d8f 100644
--- a/1pass-core/core/service/keyservice.go
+++ b/1pass-core/core/service/keyservice.go
@@ -132,9 +132,23 @@ func (s *dfltKeyService) DerivedKeys(password string) ([]byte, []byte, error) {
 }
 
 func (s *dfltKeyService) ItemKeys(item *domain.RawItem, keys *domain.Keys) ([]byte, []byte) {
-	itemKeys, _ := base64.StdEncoding.DecodeString(item.Keys)
-	data := itemKeys[:len(itemKeys)-32]
-	plain, _ := s.DecodeData(keys.MasterKey, data[0:16], data[16:])
+	itemKeys, err := base64.StdEncoding.DecodeString(item.Keys)
+
+	if err != nil || len(itemKeys) < 112 {
+		return nil, nil
+	}
+
+	data, mac := itemKeys[:len(itemKeys)-32], itemKeys[len(itemKeys)-32:]
+
+	if err := s.CheckHmac(data, keys.MasterMac, mac); err != nil {
+		return nil, nil
+	}
+
+	plain, err := s.DecodeData(keys.MasterKey, data[0:16], data[16:])
+
+	if err != nil {
+		return nil, nil
+	}
 
 	return plain[0:32], plain[32:64]
 }
-- 
2.43.0


From 7bb2ed8a986f55704d323818ea2297f1bb41fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:01 +0000
Subject: [PATCH 03/18] fix: render numeric dates that fmt.Sprint prints in
 exponent notation

---
 1pass-core/core/service/itemservice.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 037ef49..10e9019 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/mashmb/1pass/1pass-core/core/domain"
@@ -171,7 +172,13 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 				if dataType == domain.DataTypeEnum.Address {
 					value = domain.DataTypeEnum.ParseValue(dataType, "", data["v"].(map[string]interface{}))
 				} else {
-					value = domain.DataTypeEnum.ParseValue(dataType, fmt.Sprint(data["v"]), nil)
+					raw := fmt.Sprint(data["v"])
+
+					if number, ok := data["v"].(float64); ok {
+						raw = strconv.FormatFloat(number, 'f', -1, 64)
+					}
+
+					value = domain.DataTypeEnum.ParseValue(dataType, raw, nil)
 				}
 			}
 
-- 
2.43.0


From 5527e8fdcd5e9fb9d34236d4a525fa2fa7f5f18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:01 +0000
Subject: [PATCH 04/18] fix: keep the plain fields of items that also have
 sections

---
 1pass-core/core/service/itemservice.go | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 10e9019..6e93e33 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -58,25 +58,25 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			detailsJson := s.DecodeDetails(encoded, keys)
 			sections := make([]*domain.ItemSection, 0)
 
-			if detailsJson["sections"] == nil {
-				if detailsJson["fields"] != nil {
-					fieldsJson := detailsJson["fields"].([]interface{})
-					fields := make([]*domain.ItemField, 0)
+			if detailsJson["fields"] != nil {
+				fieldsJson := detailsJson["fields"].([]interface{})
+				fields := make([]*domain.ItemField, 0)
 
-					for _, fieldJson := range fieldsJson {
-						field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
+				for _, fieldJson := range fieldsJson {
+					field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
 
-						if field != nil {
-							fields = append(fields, field)
-						}
+					if field != nil {
+						fields = append(fields, field)
 					}
+				}
 
-					if len(fields) != 0 {
-						section := domain.NewItemSection("", fields)
-						sections = append(sections, section)
-					}
+				if len(fields) != 0 {
+					section := domain.NewItemSection("", fields)
+					sections = append(sections, section)
 				}
-			} else {
+			}
+
+			if detailsJson["sections"] != nil {
 				sectionsJson := detailsJson["sections"].([]interface{})
 
 				for _, sectionJson := range sectionsJson {
-- 
2.43.0


From ea9fddfb8898767bfcf422dac84e31cb8ac0603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:01 +0000
Subject: [PATCH 05/18] fix: open the GUI menu entry that is selected when the
 trash is empty

---
 1pass-app/gui/1passwidget.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 50f5dbd..2c8a33e 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -180,16 +180,12 @@ func (ow *onepassWidget) showItems(ui *gocui.Gui, view *gocui.View) error {
 
 		var items []*domain.SimpleItem
 
-		if len(ow.categories) == 1 {
-			items = ow.guiControl.GetItems(nil, true)
+		if ow.categories[ow.currIdx] != nil {
+			items = ow.guiControl.GetItems(ow.categories[ow.currIdx], false)
+		} else if ow.currIdx == 0 && ow.guiControl.CountItems(nil, false) != 0 {
+			items = ow.guiControl.GetItems(nil, false)
 		} else {
-			if ow.currIdx == len(ow.categories)-1 {
-				items = ow.guiControl.GetItems(nil, true)
-			} else if ow.currIdx == 0 {
-				items = ow.guiControl.GetItems(nil, false)
-			} else {
-				items = ow.guiControl.GetItems(ow.categories[ow.currIdx], false)
-			}
+			items = ow.guiControl.GetItems(nil, true)
 		}
 
 		ow.itemsWidget.items = items
-- 
2.43.0


From 7884a11beacf262898f86cc5fb417126fc1cb9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:01 +0000
Subject: [PATCH 06/18] fix: reset the scroll offset together with the cursor

---
 1pass-app/gui/1passwidget.go | 10 +++++-----
 1pass-app/gui/itemswidget.go | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 2c8a33e..ed10e6e 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -132,14 +132,14 @@ func (ow *onepassWidget) promptForPassword(ui *gocui.Gui) error {
 
 func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 	if view != nil {
-		ox, oy := view.Origin()
+		ox, _ := view.Origin()
 		cx, _ := view.Cursor()
 
-		if err := view.SetCursor(cx, 0); err != nil && oy > 0 {
-			if err := view.SetOrigin(ox, 0); err != nil {
-				return err
-			}
+		if err := view.SetOrigin(ox, 0); err != nil {
+			return err
 		}
+
+		view.SetCursor(cx, 0)
 	}
 
 	return nil
diff --git a/1pass-app/gui/itemswidget.go b/1pass-app/gui/itemswidget.go
index 04457a8..d1c2cc2 100644
--- a/1pass-app/gui/itemswidget.go
+++ b/1pass-app/gui/itemswidget.go
@@ -126,14 +126,14 @@ func (iw *itemsWidget) lock(ui *gocui.Gui, view *gocui.View) error {
 
 func (iw *itemsWidget) resetCursor(view *gocui.View) error {
 	if view != nil {
-		ox, oy := view.Origin()
+		ox, _ := view.Origin()
 		cx, _ := view.Cursor()
 
-		if err := view.SetCursor(cx, 0); err != nil && oy > 0 {
-			if err := view.SetOrigin(ox, 0); err != nil {
-				return err
-			}
+		if err := view.SetOrigin(ox, 0); err != nil {
+			return err
 		}
+
+		view.SetCursor(cx, 0)
 	}
 
 	return nil
-- 
2.43.0


From c20dc2ce37c87315b0934b897890bb66a786b2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:01 +0000
Subject: [PATCH 07/18] fix: do not index an empty item list when revealing
 details

---
 1pass-app/gui/itemswidget.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-app/gui/itemswidget.go b/1pass-app/gui/itemswidget.go
index d1c2cc2..2e3a743 100644
--- a/1pass-app/gui/itemswidget.go
+++ b/1pass-app/gui/itemswidget.go
@@ -151,6 +151,10 @@ func (iw *itemsWidget) showOverview(ui *gocui.Gui) error {
 }
 
 func (iw *itemsWidget) toggleDetails(ui *gocui.Gui, view *gocui.View) error {
+	if iw.currIdx == -1 {
+		return nil
+	}
+
 	item := iw.guiControl.GetItem(iw.items[iw.currIdx])
 	iw.detailsWidget.item = item
 
-- 
2.43.0


From e23a9d01f93081e486bc219245e32b705507004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:02 +0000
Subject: [PATCH 08/18] fix: refuse archive entries outside the extraction
 directory

---
 1pass-up/component/github/updater.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 634b0a3..5e7e32f 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -171,6 +171,10 @@ func (up *githubUpdater) ExtractArchive(src, dst string) error {
 		target := filepath.Join(dst, header.Name)
 
 		if header.Typeflag == tar.TypeReg {
+			if !strings.HasPrefix(target, filepath.Clean(dst)+string(os.PathSeparator)) {
+				return fmt.Errorf("illegal path in archive: %v", header.Name)
+			}
+
 			file, err := os.Create(target)
 
 			if err != nil {
-- 
2.43.0


From 0811627a0fbf8894f97de8f0d0bc45a7e836a7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:02 +0000
Subject: [PATCH 09/18] fix: extract files with the mode recorded in the
 archive

---
 1pass-up/component/github/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 5e7e32f..9ddca0a 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -175,7 +175,7 @@ func (up *githubUpdater) ExtractArchive(src, dst string) error {
 				return fmt.Errorf("illegal path in archive: %v", header.Name)
 			}
 
-			file, err := os.Create(target)
+			file, err := os.OpenFile(target, os.O_RDWR|os.O_CREATE|os.O_TRUNC, header.FileInfo().Mode().Perm())
 
 			if err != nil {
 				return err
-- 
2.43.0


From a3590033b4fe3f6fd81ab258b2553e153fd127c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:02 +0000
Subject: [PATCH 10/18] fix: compare versions part by part

---
 1pass-up/component/github/updater.go | 36 ++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 9ddca0a..1db3184 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -47,6 +47,37 @@ func httpClient(timeout int64) http.Client {
 	return httpClient
 }
 
+func isNewer(remote, current string) bool {
+	remoteParts := strings.Split(remote, ".")
+	currentParts := strings.Split(current, ".")
+	newer := false
+	decided := false
+
+	for i := 0; i < len(remoteParts) || i < len(currentParts); i++ {
+		var remotePart, currentPart uint64
+		var err error
+
+		if i < len(remoteParts) {
+			if remotePart, err = strconv.ParseUint(remoteParts[i], 10, 64); err != nil {
+				return false
+			}
+		}
+
+		if i < len(currentParts) {
+			if currentPart, err = strconv.ParseUint(currentParts[i], 10, 64); err != nil {
+				return false
+			}
+		}
+
+		if !decided && remotePart != currentPart {
+			newer = remotePart > currentPart
+			decided = true
+		}
+	}
+
+	return newer
+}
+
 func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
 	httpClient := httpClient(timeout)
 	resp, err := httpClient.Get(domain.GithubReleases)
@@ -94,10 +125,7 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		}
 	}
 
-	currVer, _ := strconv.ParseInt(strings.ReplaceAll(domain.Version, ".", ""), 10, 64)
-	remoteVer, _ := strconv.ParseInt(strings.ReplaceAll(version, ".", ""), 10, 64)
-
-	if remoteVer > currVer {
+	if isNewer(version, domain.Version) {
 		newer = true
 	}
 
-- 
2.43.0


From 63feb57f8d89e77664cfe0180d37f842ad6356ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:02 +0000
Subject: [PATCH 11/18] fix: do not panic on empty or wrongly typed release
 feeds

---
 1pass-up/component/github/updater.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 1db3184..2b3b5be 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -99,29 +99,31 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		return nil, err
 	}
 
-	if bodyJson == nil || bodyJson[0] == nil {
+	if len(bodyJson) == 0 || bodyJson[0] == nil {
 		return nil, nil
 	}
 
-	latestJson := bodyJson[0].(map[string]interface{})
-	changelog := latestJson["body"].(string)
-	version := latestJson["tag_name"].(string)
+	latestJson, _ := bodyJson[0].(map[string]interface{})
+	changelog, _ := latestJson["body"].(string)
+	version, _ := latestJson["tag_name"].(string)
 	newer := false
 	var archiveUrl string
 	var checksumUrl string
-	assets := latestJson["assets"].([]interface{})
+	assets, _ := latestJson["assets"].([]interface{})
 
 	if assets == nil {
 		return nil, nil
 	}
 
 	for _, assetJson := range assets {
-		asset := assetJson.(map[string]interface{})
-
-		if strings.Contains(asset["name"].(string), ".tar.gz") {
-			archiveUrl = asset["browser_download_url"].(string)
-		} else if strings.Contains(asset["name"].(string), ".md5") {
-			checksumUrl = asset["browser_download_url"].(string)
+		asset, _ := assetJson.(map[string]interface{})
+		name, _ := asset["name"].(string)
+		url, _ := asset["browser_download_url"].(string)
+
+		if strings.Contains(name, ".tar.gz") {
+			archiveUrl = url
+		} else if strings.Contains(name, ".md5") {
+			checksumUrl = url
 		}
 	}
 
-- 
2.43.0


From 4ce59bb7eaa8346d9e7cf51e4099d746f68ecbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:02 +0000
Subject: [PATCH 12/18] fix: do not panic on an empty checksum file

---
 1pass-up/component/github/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 2b3b5be..fe48b68 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -289,7 +289,7 @@ func (up *githubUpdater) ValidateChecksum(binary, file string) error {
 	bytes := hash.Sum(nil)
 	calculated := hex.EncodeToString(bytes)
 
-	if chunks[0] != calculated {
+	if len(chunks) == 0 || chunks[0] != calculated {
 		return domain.ErrInvalidMd5
 	}
 
-- 
2.43.0


From 49239248163349c8010bfc93bae66168cbf14398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:02 +0000
Subject: [PATCH 13/18] fix: treat an empty configuration file as an empty
 configuration

---
 1pass-parse/repo/file/configrepo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index 7d4764e..4b825ce 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -46,6 +46,10 @@ func loadConfigFile(configDir string) map[string]interface{} {
 		log.Fatalln(err)
 	}
 
+	if config == nil {
+		config = make(map[string]interface{})
+	}
+
 	return config
 }
 
-- 
2.43.0


From 99739db5f56cf32575d4e7a301226288c91eb8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:02 +0000
Subject: [PATCH 14/18] fix: load band files without entries

---
 1pass-parse/repo/file/itemrepo.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 9f73385..fb9dfed 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -94,8 +94,6 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	}
 
 	if len(bandFiles) != 0 {
-		itemsFile := "{"
-
 		for _, bandFile := range bandFiles {
 			file, err := ioutil.ReadFile(bandFile)
 
@@ -103,13 +101,9 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 				log.Fatalln(err)
 			}
 
-			itemsFile = itemsFile + string(file[4:len(file)-3]) + ","
-		}
-
-		itemsFile = itemsFile[:len(itemsFile)-1] + "}"
-
-		if err := json.Unmarshal([]byte(itemsFile), &itemsJson); err != nil {
-			log.Fatalln(err)
+			if err := json.Unmarshal(file[3:len(file)-2], &itemsJson); err != nil {
+				log.Fatalln(err)
+			}
 		}
 
 		for uid, value := range itemsJson {
-- 
2.43.0


From 2acf0bccb7a62193e37359a76b7c1bc216d52930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:02 +0000
Subject: [PATCH 15/18] fix: load band files of vaults whose path contains glob
 characters

---
 1pass-parse/repo/file/itemrepo.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index fb9dfed..9c25952 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -84,10 +84,14 @@ func (repo *fileItemRepo) FindFirstByUidAndTrashed(uid string, trashed bool) *do
 	return result
 }
 
+func escapePattern(path string) string {
+	return strings.NewReplacer("\\", "\\\\", "*", "\\*", "?", "\\?", "[", "\\[").Replace(path)
+}
+
 func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	items := make([]*domain.RawItem, 0)
 	var itemsJson map[string]interface{}
-	bandFiles, err := filepath.Glob(filepath.Join(vault.Path, domain.ProfileDir, domain.BandFilePattern))
+	bandFiles, err := filepath.Glob(filepath.Join(escapePattern(vault.Path), domain.ProfileDir, domain.BandFilePattern))
 
 	if err != nil {
 		log.Fatalln(err)
-- 
2.43.0


From a685255313c5017ca31270d37b4b490df656d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:02 +0000
Subject: [PATCH 16/18] fix: load the profile of the vault that is validated

---
 1pass-parse/repo/file/profilerepo.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/1pass-parse/repo/file/profilerepo.go b/1pass-parse/repo/file/profilerepo.go
index aaa052e..d2c3aa4 100644
--- a/1pass-parse/repo/file/profilerepo.go
+++ b/1pass-parse/repo/file/profilerepo.go
@@ -38,15 +38,15 @@ func (repo *fileProfileRepo) GetSalt() string {
 }
 
 func (repo *fileProfileRepo) LoadProfile(vault *domain.Vault) {
-	if repo.profileJson == nil {
-		file, err := ioutil.ReadFile(filepath.Join(vault.Path, domain.ProfileDir, domain.ProfileFile))
+	file, err := ioutil.ReadFile(filepath.Join(vault.Path, domain.ProfileDir, domain.ProfileFile))
 
-		if err != nil {
-			log.Fatalln(err)
-		}
+	if err != nil {
+		log.Fatalln(err)
+	}
+
+	repo.profileJson = nil
 
-		if err := json.Unmarshal(file[12:len(file)-1], &repo.profileJson); err != nil {
-			log.Fatalln(err)
-		}
+	if err := json.Unmarshal(file[12:len(file)-1], &repo.profileJson); err != nil {
+		log.Fatalln(err)
 	}
 }
-- 
2.43.0


From b7762096c4af2d4cb128349826eb4e7764aacdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:02 +0000
Subject: [PATCH 17/18] fix: keep the downloaded checksum out of reach of the
 archive content

---
 1pass-core/core/service/updateservice.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/1pass-core/core/service/updateservice.go b/1pass-core/core/service/updateservice.go
index cee2047..21fcb30 100644
--- a/1pass-core/core/service/updateservice.go
+++ b/1pass-core/core/service/updateservice.go
@@ -88,11 +88,17 @@ func (s *dfltUpdateService) Update(timeout int, stage func(int)) error {
 
 		stage(4)
 
-		if err := s.updater.ExtractArchive(archive, domain.CacheDir); err != nil {
+		extracted := filepath.Join(domain.CacheDir, "extracted")
+
+		if err := os.MkdirAll(extracted, 0700); err != nil {
+			return err
+		}
+
+		if err := s.updater.ExtractArchive(archive, extracted); err != nil {
 			return err
 		}
 
-		binary := filepath.Join(domain.CacheDir, domain.AppName)
+		binary := filepath.Join(extracted, domain.AppName)
 
 		stage(5)
 
-- 
2.43.0


From b25d0dcf35bfb07e3ddd36b533f626d684802786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:02 +0000
Subject: [PATCH 18/18] fix: keep blanks at the ends of the password typed in
 the GUI

---
 1pass-app/gui/1passwidget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index ed10e6e..2f4ad2f 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -147,7 +147,7 @@ func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 }
 
 func (ow *onepassWidget) unlock(ui *gocui.Gui, view *gocui.View) error {
-	password := strings.TrimSpace(view.ViewBuffer())
+	password := strings.TrimSuffix(view.ViewBuffer(), "\n")
 
 	if err := ui.DeleteView(ow.passPrompt.name); err != nil {
 		return err
-- 
2.43.0

