From f7a9a0943a2ab6584d73969181f4b25d45e8b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:09 +0000
Subject: [PATCH 01/32] fix: show date fields with their stored date

---
 1pass-core/core/service/itemservice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 037ef49..4dcaed4 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/mashmb/1pass/1pass-core/core/domain"
@@ -170,6 +171,8 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 			} else {
 				if dataType == domain.DataTypeEnum.Address {
 					value = domain.DataTypeEnum.ParseValue(dataType, "", data["v"].(map[string]interface{}))
+				} else if number, ok := data["v"].(float64); ok {
+					value = domain.DataTypeEnum.ParseValue(dataType, strconv.FormatFloat(number, 'f', -1, 64), nil)
 				} else {
 					value = domain.DataTypeEnum.ParseValue(dataType, fmt.Sprint(data["v"]), nil)
 				}
-- 
2.43.0


From f9a4bc8979f1bba759e0e9f690ea46af23abe1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:09 +0000
Subject: [PATCH 02/32] fix: keep login form fields of items that have sections

---
 1pass-core/core/service/itemservice.go | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 4dcaed4..43dc35a 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -58,25 +58,25 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			detailsJson := s.DecodeDetails(encoded, keys)
 			sections := make([]*domain.ItemSection, 0)
 
-			if detailsJson["sections"] == nil {
-				if detailsJson["fields"] != nil {
-					fieldsJson := detailsJson["fields"].([]interface{})
-					fields := make([]*domain.ItemField, 0)
+			if detailsJson["fields"] != nil {
+				fieldsJson := detailsJson["fields"].([]interface{})
+				fields := make([]*domain.ItemField, 0)
 
-					for _, fieldJson := range fieldsJson {
-						field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
+				for _, fieldJson := range fieldsJson {
+					field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
 
-						if field != nil {
-							fields = append(fields, field)
-						}
+					if field != nil {
+						fields = append(fields, field)
 					}
+				}
 
-					if len(fields) != 0 {
-						section := domain.NewItemSection("", fields)
-						sections = append(sections, section)
-					}
+				if len(fields) != 0 {
+					section := domain.NewItemSection("", fields)
+					sections = append(sections, section)
 				}
-			} else {
+			}
+
+			if detailsJson["sections"] != nil {
 				sectionsJson := detailsJson["sections"].([]interface{})
 
 				for _, sectionJson := range sectionsJson {
-- 
2.43.0


From d5da14cd3e27ef2b72e212305b9697837cae309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 03/32] fix: open the last menu entry as a category when there
 is no trash

---
 1pass-app/gui/1passwidget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 50f5dbd..1a939e1 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -183,7 +183,7 @@ func (ow *onepassWidget) showItems(ui *gocui.Gui, view *gocui.View) error {
 		if len(ow.categories) == 1 {
 			items = ow.guiControl.GetItems(nil, true)
 		} else {
-			if ow.currIdx == len(ow.categories)-1 {
+			if ow.currIdx == len(ow.categories)-1 && ow.categories[ow.currIdx] == nil {
 				items = ow.guiControl.GetItems(nil, true)
 			} else if ow.currIdx == 0 {
 				items = ow.guiControl.GetItems(nil, false)
-- 
2.43.0


From 70c68f6088dfc6f5fefc7bd6801897c4f89c6884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 04/32] fix: scroll the menu back to its beginning when locking

---
 1pass-app/gui/1passwidget.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 1a939e1..c565ae2 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -135,7 +135,11 @@ func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 		ox, oy := view.Origin()
 		cx, _ := view.Cursor()
 
-		if err := view.SetCursor(cx, 0); err != nil && oy > 0 {
+		if err := view.SetCursor(cx, 0); err != nil {
+			return err
+		}
+
+		if oy > 0 {
 			if err := view.SetOrigin(ox, 0); err != nil {
 				return err
 			}
-- 
2.43.0


From bc125885b24181829590351577cd7005de214a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 05/32] fix: show details from their beginning after scrolling
 both ways

---
 1pass-app/gui/detailswidget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index 8889b36..ca2db12 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -48,7 +48,7 @@ func (dw *detailsWidget) resetOrigin(view *gocui.View) error {
 		}
 
 		if oy > 0 {
-			if err := view.SetOrigin(ox, 0); err != nil {
+			if err := view.SetOrigin(0, 0); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From b57184474202e1fc20f66a2d2de10cd43b4df358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 06/32] fix: unlock with the password as typed in interactive
 mode

---
 1pass-app/gui/1passwidget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index c565ae2..c246a8f 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -151,7 +151,7 @@ func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 }
 
 func (ow *onepassWidget) unlock(ui *gocui.Gui, view *gocui.View) error {
-	password := strings.TrimSpace(view.ViewBuffer())
+	password := strings.TrimSuffix(view.Buffer(), "\n")
 
 	if err := ui.DeleteView(ow.passPrompt.name); err != nil {
 		return err
-- 
2.43.0


From e12467f71274662a42696dd2a9840d396e6f01d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 07/32] fix: write the update check result from the interface
 loop

---
 1pass-app/gui/versionwidget.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/1pass-app/gui/versionwidget.go b/1pass-app/gui/versionwidget.go
index df3732b..e34f3a9 100644
--- a/1pass-app/gui/versionwidget.go
+++ b/1pass-app/gui/versionwidget.go
@@ -29,9 +29,20 @@ func newVerWidget(version string, guiControl in.GuiControl) *verWidget {
 }
 
 func (vw *verWidget) update(ui *gocui.Gui) {
-	view, _ := ui.View(vw.name)
 	info, err := vw.guiControl.CheckForUpdate()
 
+	ui.Update(func(ui *gocui.Gui) error {
+		return vw.show(ui, info, err)
+	})
+}
+
+func (vw *verWidget) show(ui *gocui.Gui, info *domain.UpdateInfo, err error) error {
+	view, viewErr := ui.View(vw.name)
+
+	if viewErr != nil {
+		return viewErr
+	}
+
 	if err != nil {
 		if err == domain.ErrNoUpdate {
 			fmt.Fprint(view, fmt.Sprintf("(%v)", err))
@@ -41,6 +52,8 @@ func (vw *verWidget) update(ui *gocui.Gui) {
 	} else {
 		fmt.Fprint(view, fmt.Sprintf("(new version is available: v%v - run '1pass update' to upgrade)", info.Version))
 	}
+
+	return nil
 }
 
 func (vw *verWidget) Layout(ui *gocui.Gui) error {
-- 
2.43.0


From cc034d196088a51dca32eff9ca4dc82dbced2980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 08/32] fix: allow configuring with an empty configuration file

---
 1pass-parse/repo/file/configrepo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index 7d4764e..4b825ce 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -46,6 +46,10 @@ func loadConfigFile(configDir string) map[string]interface{} {
 		log.Fatalln(err)
 	}
 
+	if config == nil {
+		config = make(map[string]interface{})
+	}
+
 	return config
 }
 
-- 
2.43.0


From 2f8b7bbf87bd7cd1834d264d074e858e595cbc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 09/32] fix: replace the configuration file atomically

---
 1pass-parse/repo/file/configrepo.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index 4b825ce..f7baa1b 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -113,7 +113,23 @@ func (repo *fileConfigRepo) Save(config *domain.Config) {
 		os.MkdirAll(repo.configDir, 0700)
 	}
 
-	if err := ioutil.WriteFile(configFile, file, 0644); err != nil {
+	if target, err := filepath.EvalSymlinks(configFile); err == nil {
+		configFile = target
+	}
+
+	mode := os.FileMode(0644)
+
+	if info, err := os.Stat(configFile); err == nil {
+		mode = info.Mode().Perm()
+	}
+
+	tmpFile := configFile + ".tmp"
+
+	if err := ioutil.WriteFile(tmpFile, file, mode); err != nil {
+		log.Fatalln(err)
+	}
+
+	if err := os.Rename(tmpFile, configFile); err != nil {
 		log.Fatalln(err)
 	}
 
-- 
2.43.0


From 11ece5d4803607cb3771caca24c442bc4a93f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 10/32] fix: refuse archive entries outside of the destination
 directory

---
 1pass-up/component/github/updater.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 634b0a3..b24c8da 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -171,6 +171,12 @@ func (up *githubUpdater) ExtractArchive(src, dst string) error {
 		target := filepath.Join(dst, header.Name)
 
 		if header.Typeflag == tar.TypeReg {
+			rel, err := filepath.Rel(dst, target)
+
+			if err != nil || rel == ".." || strings.HasPrefix(rel, "../") {
+				return fmt.Errorf("invalid archive entry (%v)", header.Name)
+			}
+
 			file, err := os.Create(target)
 
 			if err != nil {
-- 
2.43.0


From 51372b7821c75299401fc893a000a6498129b410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 11/32] fix: keep the published checksum apart from unpacked
 release files

---
 1pass-core/core/service/updateservice.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/1pass-core/core/service/updateservice.go b/1pass-core/core/service/updateservice.go
index cee2047..21fcb30 100644
--- a/1pass-core/core/service/updateservice.go
+++ b/1pass-core/core/service/updateservice.go
@@ -88,11 +88,17 @@ func (s *dfltUpdateService) Update(timeout int, stage func(int)) error {
 
 		stage(4)
 
-		if err := s.updater.ExtractArchive(archive, domain.CacheDir); err != nil {
+		extracted := filepath.Join(domain.CacheDir, "extracted")
+
+		if err := os.MkdirAll(extracted, 0700); err != nil {
+			return err
+		}
+
+		if err := s.updater.ExtractArchive(archive, extracted); err != nil {
 			return err
 		}
 
-		binary := filepath.Join(domain.CacheDir, domain.AppName)
+		binary := filepath.Join(extracted, domain.AppName)
 
 		stage(5)
 
-- 
2.43.0


From 3281d219fbb8e647881c12f654cdbcb8b6729cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 12/32] fix: install the updated binary as an executable file

---
 1pass-up/component/github/updater.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index b24c8da..65edaa9 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -199,6 +199,10 @@ func (up *githubUpdater) ReplaceBinary(src string) error {
 		return err
 	}
 
+	if err := os.Chmod(src, 0755); err != nil {
+		return err
+	}
+
 	if err := os.Rename(src, dst); err != nil {
 		return err
 	}
-- 
2.43.0


From 3b69c79e90572fb1728108fcb5c9aed7789b851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 13/32] fix: reject an empty checksum file instead of crashing

---
 1pass-up/component/github/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 65edaa9..b5c3359 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -265,7 +265,7 @@ func (up *githubUpdater) ValidateChecksum(binary, file string) error {
 	bytes := hash.Sum(nil)
 	calculated := hex.EncodeToString(bytes)
 
-	if chunks[0] != calculated {
+	if len(chunks) == 0 || chunks[0] != calculated {
 		return domain.ErrInvalidMd5
 	}
 
-- 
2.43.0


From 04f354f3d0057cc995c34a5f3080df864ca68d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 14/32] fix: compare versions number by number

---
 1pass-up/component/github/updater.go | 42 ++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index b5c3359..11c91ca 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -47,6 +47,42 @@ func httpClient(timeout int64) http.Client {
 	return httpClient
 }
 
+func parseVersion(version string) ([]uint64, error) {
+	parts := make([]uint64, 0)
+
+	for _, chunk := range strings.Split(version, ".") {
+		part, err := strconv.ParseUint(chunk, 10, 64)
+
+		if err != nil {
+			return nil, err
+		}
+
+		parts = append(parts, part)
+	}
+
+	return parts, nil
+}
+
+func isNewer(remote, current []uint64) bool {
+	for i := 0; i < len(remote) || i < len(current); i++ {
+		var r, c uint64
+
+		if i < len(remote) {
+			r = remote[i]
+		}
+
+		if i < len(current) {
+			c = current[i]
+		}
+
+		if r != c {
+			return r > c
+		}
+	}
+
+	return false
+}
+
 func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
 	httpClient := httpClient(timeout)
 	resp, err := httpClient.Get(domain.GithubReleases)
@@ -94,10 +130,10 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		}
 	}
 
-	currVer, _ := strconv.ParseInt(strings.ReplaceAll(domain.Version, ".", ""), 10, 64)
-	remoteVer, _ := strconv.ParseInt(strings.ReplaceAll(version, ".", ""), 10, 64)
+	currVer, _ := parseVersion(domain.Version)
+	remoteVer, err := parseVersion(version)
 
-	if remoteVer > currVer {
+	if err == nil && isNewer(remoteVer, currVer) {
 		newer = true
 	}
 
-- 
2.43.0


From efd1976e75dc02506d1534e5fdd131f56ed827c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 15/32] fix: limit the whole update check to the configured
 timeout

---
 1pass-up/component/github/updater.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 11c91ca..a96deb4 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -85,6 +85,7 @@ func isNewer(remote, current []uint64) bool {
 
 func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
 	httpClient := httpClient(timeout)
+	httpClient.Timeout = time.Duration(timeout) * time.Second
 	resp, err := httpClient.Get(domain.GithubReleases)
 
 	if err != nil {
-- 
2.43.0


From c67015290952222e1abb123bd551ddde8dfbe7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 16/32] fix: survive malformed answers of the release server

---
 1pass-up/component/github/updater.go | 35 +++++++++++++++++-----------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index a96deb4..281db33 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -27,6 +27,17 @@ import (
 
 type githubUpdater struct{}
 
+type assetJson struct {
+	Name string `json:"name"`
+	Url  string `json:"browser_download_url"`
+}
+
+type releaseJson struct {
+	Assets  []assetJson `json:"assets"`
+	Body    string      `json:"body"`
+	TagName string      `json:"tag_name"`
+}
+
 func NewGithubUpdater() *githubUpdater {
 	return &githubUpdater{}
 }
@@ -99,35 +110,33 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		return nil, err
 	}
 
-	var bodyJson []interface{}
+	var bodyJson []*releaseJson
 
 	if err := json.Unmarshal(body, &bodyJson); err != nil {
 		return nil, err
 	}
 
-	if bodyJson == nil || bodyJson[0] == nil {
+	if len(bodyJson) == 0 || bodyJson[0] == nil {
 		return nil, nil
 	}
 
-	latestJson := bodyJson[0].(map[string]interface{})
-	changelog := latestJson["body"].(string)
-	version := latestJson["tag_name"].(string)
+	latestJson := bodyJson[0]
+	changelog := latestJson.Body
+	version := latestJson.TagName
 	newer := false
 	var archiveUrl string
 	var checksumUrl string
-	assets := latestJson["assets"].([]interface{})
+	assets := latestJson.Assets
 
 	if assets == nil {
 		return nil, nil
 	}
 
-	for _, assetJson := range assets {
-		asset := assetJson.(map[string]interface{})
-
-		if strings.Contains(asset["name"].(string), ".tar.gz") {
-			archiveUrl = asset["browser_download_url"].(string)
-		} else if strings.Contains(asset["name"].(string), ".md5") {
-			checksumUrl = asset["browser_download_url"].(string)
+	for _, asset := range assets {
+		if strings.Contains(asset.Name, ".tar.gz") {
+			archiveUrl = asset.Url
+		} else if strings.Contains(asset.Name, ".md5") {
+			checksumUrl = asset.Url
 		}
 	}
 
-- 
2.43.0


From e5eadb6dd3b2b16c55dc8f8b37821340fbad667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 17/32] fix: find band files whatever characters the vault path
 has

---
 1pass-parse/repo/file/itemrepo.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 9f73385..0cd90b0 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -87,12 +87,21 @@ func (repo *fileItemRepo) FindFirstByUidAndTrashed(uid string, trashed bool) *do
 func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	items := make([]*domain.RawItem, 0)
 	var itemsJson map[string]interface{}
-	bandFiles, err := filepath.Glob(filepath.Join(vault.Path, domain.ProfileDir, domain.BandFilePattern))
+	bandDir := filepath.Join(vault.Path, domain.ProfileDir)
+	files, err := ioutil.ReadDir(bandDir)
 
 	if err != nil {
 		log.Fatalln(err)
 	}
 
+	bandFiles := make([]string, 0)
+
+	for _, file := range files {
+		if match, err := filepath.Match(domain.BandFilePattern, file.Name()); err == nil && match {
+			bandFiles = append(bandFiles, filepath.Join(bandDir, file.Name()))
+		}
+	}
+
 	if len(bandFiles) != 0 {
 		itemsFile := "{"
 
-- 
2.43.0


From 27e842b7222282ba15cd0b1aef35c045d71a8e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 18/32] fix: open vaults that have an empty band file

---
 1pass-parse/repo/file/itemrepo.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 0cd90b0..253861a 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -112,10 +112,16 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 				log.Fatalln(err)
 			}
 
-			itemsFile = itemsFile + string(file[4:len(file)-3]) + ","
+			band := string(file[4 : len(file)-3])
+
+			if strings.TrimSpace(band) == "" {
+				continue
+			}
+
+			itemsFile = itemsFile + band + ","
 		}
 
-		itemsFile = itemsFile[:len(itemsFile)-1] + "}"
+		itemsFile = strings.TrimSuffix(itemsFile, ",") + "}"
 
 		if err := json.Unmarshal([]byte(itemsFile), &itemsJson); err != nil {
 			log.Fatalln(err)
-- 
2.43.0


From 99f8c2e5dbd64dad8606c126a881dd5c95f3f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 19/32] fix: replace the stored items on every unlock

---
 1pass-parse/repo/file/itemrepo.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 253861a..b36b162 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -153,7 +153,5 @@ func (repo *fileItemRepo) RemoveItems() {
 }
 
 func (repo *fileItemRepo) StoreItems(items []*domain.Item) {
-	if repo.items == nil {
-		repo.items = items
-	}
+	repo.items = items
 }
-- 
2.43.0


From 604b85a545c99ba02b09a3d3c0d2e71bf52aabc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 20/32] fix: load the profile of the vault being validated

---
 1pass-parse/repo/file/profilerepo.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/1pass-parse/repo/file/profilerepo.go b/1pass-parse/repo/file/profilerepo.go
index aaa052e..2d51053 100644
--- a/1pass-parse/repo/file/profilerepo.go
+++ b/1pass-parse/repo/file/profilerepo.go
@@ -38,15 +38,17 @@ func (repo *fileProfileRepo) GetSalt() string {
 }
 
 func (repo *fileProfileRepo) LoadProfile(vault *domain.Vault) {
-	if repo.profileJson == nil {
-		file, err := ioutil.ReadFile(filepath.Join(vault.Path, domain.ProfileDir, domain.ProfileFile))
+	file, err := ioutil.ReadFile(filepath.Join(vault.Path, domain.ProfileDir, domain.ProfileFile))
 
-		if err != nil {
-			log.Fatalln(err)
-		}
+	if err != nil {
+		log.Fatalln(err)
+	}
+
+	var profileJson map[string]interface{}
 
-		if err := json.Unmarshal(file[12:len(file)-1], &repo.profileJson); err != nil {
-			log.Fatalln(err)
-		}
+	if err := json.Unmarshal(file[12:len(file)-1], &profileJson); err != nil {
+		log.Fatalln(err)
 	}
+
+	repo.profileJson = profileJson
 }
-- 
2.43.0


From 6ea04b77c9ba605bbcab6bfa06dbacac1717320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 21/32] fix: read every answer as one whole line

---
 1pass-term/control/cobra/clicontrol.go | 29 ++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/1pass-term/control/cobra/clicontrol.go b/1pass-term/control/cobra/clicontrol.go
index 69b0a51..da210ef 100644
--- a/1pass-term/control/cobra/clicontrol.go
+++ b/1pass-term/control/cobra/clicontrol.go
@@ -34,6 +34,23 @@ func NewCobraCliControl(configFacade facade.ConfigFacade, updateFacade facade.Up
 	}
 }
 
+func readLine() string {
+	line := make([]byte, 0)
+	char := make([]byte, 1)
+
+	for {
+		size, err := os.Stdin.Read(char)
+
+		if err != nil || size == 0 || char[0] == '\n' {
+			break
+		}
+
+		line = append(line, char[0])
+	}
+
+	return strings.TrimSpace(string(line))
+}
+
 func (ctrl *cobraCliControl) CheckForUpdate() {
 	config := ctrl.configFacade.GetConfig()
 
@@ -61,18 +78,18 @@ func (ctrl *cobraCliControl) Configure() {
 	fmt.Println("Configuring 1pass:")
 	fmt.Print(fmt.Sprintf("  1. Do you want to set default OPVault path? (%v) [y - for yes/n - for no]: ",
 		domain.LogicValEnum.No.GetName()))
-	fmt.Scanln(&confirmVal)
+	confirmVal = readLine()
 	confirm, err := domain.LogicValEnum.FromName(confirmVal)
 
 	if err == nil && confirm == domain.LogicValEnum.Yes {
 		fmt.Print(fmt.Sprintf("     Default OPVault path (%v): ", config.Vault))
-		fmt.Scanln(&vaultVal)
+		vaultVal = readLine()
 		config.Vault = strings.TrimSpace(vaultVal)
 	}
 
 	fmt.Print(fmt.Sprintf("  2. Update notifications? (%v) [y - for yes/n - for no]: ",
 		domain.LogicValEnum.FromValue(config.UpdateNotify).GetName()))
-	fmt.Scanln(&notifyVal)
+	notifyVal = readLine()
 	notify, err := domain.LogicValEnum.FromName(notifyVal)
 
 	if err == nil {
@@ -80,7 +97,7 @@ func (ctrl *cobraCliControl) Configure() {
 	}
 
 	fmt.Print(fmt.Sprintf("  3. Update HTTP timeout in seconds (%d) [1-30]: ", config.Timeout))
-	fmt.Scanln(&timeoutVal)
+	timeoutVal = readLine()
 	timeout, err := strconv.ParseInt(timeoutVal, 10, 64)
 
 	if err == nil && timeout >= 1 && timeout <= 30 {
@@ -88,7 +105,7 @@ func (ctrl *cobraCliControl) Configure() {
 	}
 
 	fmt.Print(fmt.Sprintf("  4. How often check for updates in days (%d) [0-365]: ", config.UpdatePeriod))
-	fmt.Scanln(&periodVal)
+	periodVal = readLine()
 	period, err := strconv.ParseInt(periodVal, 10, 64)
 
 	if err == nil && period >= 0 && period <= 365 {
@@ -360,7 +377,7 @@ func (ctrl *cobraCliControl) Update() {
 	fmt.Println(msg)
 	var permissionVal string
 	fmt.Print(fmt.Sprintf("Do you want to update now? (%v) [y - for yes/n - for no]: ", domain.LogicValEnum.No.GetName()))
-	fmt.Scanln(&permissionVal)
+	permissionVal = readLine()
 	permission, err := domain.LogicValEnum.FromName(permissionVal)
 
 	if err != nil || permission == domain.LogicValEnum.No {
-- 
2.43.0


From 1c9fc31ffef77b022cfdbdf2046e044e72bb983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:44 +0000
Subject: [PATCH 22/32] fix: accept long passwords in interactive mode

---
 1pass-app/gui/passprompt.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/1pass-app/gui/passprompt.go b/1pass-app/gui/passprompt.go
index 4532fb9..7ec43f6 100644
--- a/1pass-app/gui/passprompt.go
+++ b/1pass-app/gui/passprompt.go
@@ -22,6 +22,16 @@ func newPasswordPrompt(handler func(ui *gocui.Gui, view *gocui.View) error) *pas
 	}
 }
 
+func (pp *passwordPrompt) edit(view *gocui.View, key gocui.Key, ch rune, mod gocui.Modifier) {
+	gocui.DefaultEditor.Edit(view, key, ch, mod)
+	maxX, _ := view.Size()
+
+	// default editor leaves cursor outside of the view when scrolling
+	if cx, cy := view.Cursor(); cx >= maxX {
+		view.SetCursor(maxX-1, cy)
+	}
+}
+
 func (pp *passwordPrompt) Keybindings(ui *gocui.Gui) error {
 	if err := ui.SetKeybinding(pp.name, gocui.KeyEnter, gocui.ModNone, pp.handler); err != nil {
 		return err
@@ -42,6 +52,7 @@ func (pp *passwordPrompt) Layout(ui *gocui.Gui) error {
 
 		view.Title = pp.title
 		view.Editable = true
+		view.Editor = gocui.EditorFunc(pp.edit)
 		view.Mask = '*'
 
 		if _, err := ui.SetCurrentView(pp.name); err != nil {
-- 
2.43.0


From 7b96a52ec6e72ff074c2d734b2b7b4a306562e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:49 +0000
Subject: [PATCH 23/32] fix: show all lines of values and notes with carriage
 returns

---
 1pass-app/gui/detailswidget.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index ca2db12..d4a6ecc 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -6,6 +6,7 @@ package gui
 
 import (
 	"fmt"
+	"strings"
 	"time"
 
 	"github.com/jroimartin/gocui"
@@ -18,6 +19,9 @@ Scroll left/right: h/l
 Cover item: TAB`
 )
 
+// view drops the current line on carriage return
+var lineEndings = strings.NewReplacer("\r\n", "\n", "\r", "\n")
+
 type detailsWidget struct {
 	name        string
 	title       string
@@ -195,7 +199,7 @@ func (dw *detailsWidget) update(overview bool, ui *gocui.Gui) error {
 
 					if section.Fields != nil {
 						for _, field := range section.Fields {
-							fmt.Fprint(view, fmt.Sprintf("%v: %v\n", field.Name, field.Value))
+							fmt.Fprint(view, fmt.Sprintf("%v: %v\n", field.Name, lineEndings.Replace(field.Value)))
 						}
 					}
 				}
@@ -210,7 +214,7 @@ func (dw *detailsWidget) update(overview bool, ui *gocui.Gui) error {
 
 				fmt.Fprint(view, "Notes\n")
 				fmt.Fprint(view, "------------------------------\n")
-				fmt.Fprint(view, fmt.Sprintf("%v\n", dw.item.Notes))
+				fmt.Fprint(view, fmt.Sprintf("%v\n", lineEndings.Replace(dw.item.Notes)))
 			}
 		}
 	}
-- 
2.43.0


From a463f0e684288a5436bfd90619abcd561c97bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 24/32] fix: keep password prompt and error dialog on screen
 after window resize

---
 1pass-app/gui/1passwidget.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index c246a8f..047d5dd 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -337,5 +337,18 @@ func (ow *onepassWidget) Layout(ui *gocui.Gui) error {
 		}
 	}
 
+	// keep opened dialog on screen after window resize
+	if _, err := ui.View(ow.passPrompt.name); err == nil {
+		if err := ow.passPrompt.Layout(ui); err != nil {
+			return err
+		}
+	}
+
+	if _, err := ui.View(ow.errDialog.name); err == nil {
+		if err := ow.errDialog.Layout(ui); err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
-- 
2.43.0


From a6d31bf367a8555f7810b1bf8e68af366525ef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:04 +0000
Subject: [PATCH 25/32] fix: simultaneous configuration saves no longer share
 one temporary file

---
 1pass-parse/repo/file/configrepo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index f7baa1b..646d16f 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -123,7 +123,7 @@ func (repo *fileConfigRepo) Save(config *domain.Config) {
 		mode = info.Mode().Perm()
 	}
 
-	tmpFile := configFile + ".tmp"
+	tmpFile := fmt.Sprintf("%v.%v.tmp", configFile, os.Getpid())
 
 	if err := ioutil.WriteFile(tmpFile, file, mode); err != nil {
 		log.Fatalln(err)
-- 
2.43.0


From 4aec478ea1e2c199d157e6c1053c8e2039b82735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:08 +0000
Subject: [PATCH 26/32] fix: simultaneous updates no longer unpack into one
 directory

---
 1pass-core/core/service/updateservice.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/1pass-core/core/service/updateservice.go b/1pass-core/core/service/updateservice.go
index 21fcb30..e46f64a 100644
--- a/1pass-core/core/service/updateservice.go
+++ b/1pass-core/core/service/updateservice.go
@@ -5,6 +5,7 @@
 package service
 
 import (
+	"fmt"
 	"os"
 	"path/filepath"
 
@@ -88,7 +89,7 @@ func (s *dfltUpdateService) Update(timeout int, stage func(int)) error {
 
 		stage(4)
 
-		extracted := filepath.Join(domain.CacheDir, "extracted")
+		extracted := filepath.Join(domain.CacheDir, fmt.Sprintf("extracted-%v", os.Getpid()))
 
 		if err := os.MkdirAll(extracted, 0700); err != nil {
 			return err
-- 
2.43.0


From 38669e949f7186aa18c5cbf4898bb19a4a8c03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:02 +0000
Subject: [PATCH 27/32] fix: end with a failure status when the command line is
 refused

---
 1pass-app/cli/cobra.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/1pass-app/cli/cobra.go b/1pass-app/cli/cobra.go
index f623b27..6551389 100644
--- a/1pass-app/cli/cobra.go
+++ b/1pass-app/cli/cobra.go
@@ -6,6 +6,7 @@ package cli
 
 import (
 	"fmt"
+	"os"
 
 	"github.com/mashmb/1pass/1pass-app/gui"
 	"github.com/mashmb/1pass/1pass-core/port/in"
@@ -153,5 +154,6 @@ func (cli *cobraCli) Run() {
 
 	if err := rootCmd.Execute(); err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From e9321dc11f7551539677d96065c29cc424914c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:02 +0000
Subject: [PATCH 28/32] fix: restore the terminal when the password prompt is
 interrupted

---
 1pass-term/control/cobra/clicontrol.go | 31 +++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/1pass-term/control/cobra/clicontrol.go b/1pass-term/control/cobra/clicontrol.go
index da210ef..973a2e9 100644
--- a/1pass-term/control/cobra/clicontrol.go
+++ b/1pass-term/control/cobra/clicontrol.go
@@ -7,6 +7,7 @@ package cobra
 import (
 	"fmt"
 	"os"
+	"os/signal"
 	"sort"
 	"strconv"
 	"strings"
@@ -51,6 +52,30 @@ func readLine() string {
 	return strings.TrimSpace(string(line))
 }
 
+func readPassword() ([]byte, error) {
+	fd := int(syscall.Stdin)
+	state, err := term.GetState(fd)
+
+	if err == nil {
+		interrupt := make(chan os.Signal, 1)
+		signal.Notify(interrupt, os.Interrupt, syscall.SIGTERM)
+
+		defer func() {
+			signal.Stop(interrupt)
+			close(interrupt)
+		}()
+
+		go func() {
+			if _, interrupted := <-interrupt; interrupted {
+				term.Restore(fd, state)
+				os.Exit(1)
+			}
+		}()
+	}
+
+	return term.ReadPassword(fd)
+}
+
 func (ctrl *cobraCliControl) CheckForUpdate() {
 	config := ctrl.configFacade.GetConfig()
 
@@ -163,7 +188,7 @@ func (ctrl *cobraCliControl) GetItemDetails(vaultPath, uid string, trashed bool)
 	}
 
 	fmt.Println("Password:")
-	password, err := term.ReadPassword(int(syscall.Stdin))
+	password, err := readPassword()
 	err = ctrl.vaultFacade.Unlock(vault, string(password))
 
 	if err != nil {
@@ -244,7 +269,7 @@ func (ctrl *cobraCliControl) GetItemOverview(vaultPath, uid string, trashed bool
 	}
 
 	fmt.Println("Password:")
-	password, err := term.ReadPassword(int(syscall.Stdin))
+	password, err := readPassword()
 	err = ctrl.vaultFacade.Unlock(vault, string(password))
 
 	if err != nil {
@@ -324,7 +349,7 @@ func (ctrl *cobraCliControl) GetItems(vaultPath, category, title string, trashed
 	}
 
 	fmt.Println("Password:")
-	password, err := term.ReadPassword(int(syscall.Stdin))
+	password, err := readPassword()
 	err = ctrl.vaultFacade.Unlock(vault, string(password))
 
 	if err != nil {
-- 
2.43.0


From cfe2b6accc2dba7e068ed2ecb142541d682ff420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:19 +0000
Subject: [PATCH 29/32] fix: list items of equal category and title in a stable
 order

---
 1pass-core/core/service/itemservice.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 43dc35a..a34b38c 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -143,7 +143,11 @@ func (s *dfltItemService) GetSimpleItems(category *domain.ItemCategory, title st
 			return items[i].Category.GetCode() < items[j].Category.GetCode()
 		}
 
-		return items[i].Title < items[j].Title
+		if items[i].Title != items[j].Title {
+			return items[i].Title < items[j].Title
+		}
+
+		return items[i].Uid < items[j].Uid
 	})
 
 	return items
-- 
2.43.0


From 61ada2e5c5af31afd52e3040c8ab1dc3bcbc1d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:19 +0000
Subject: [PATCH 30/32] fix: keep the session running in a window too small for
 its layout

---
 1pass-app/gui/1passwidget.go   |  2 +-
 1pass-app/gui/detailswidget.go |  2 +-
 1pass-app/gui/errdialog.go     |  2 +-
 1pass-app/gui/gocui.go         | 13 +++++++++++++
 1pass-app/gui/helpwidget.go    |  2 +-
 1pass-app/gui/itemswidget.go   |  2 +-
 1pass-app/gui/passprompt.go    |  2 +-
 1pass-app/gui/versionwidget.go |  2 +-
 8 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 047d5dd..51c1945 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -311,7 +311,7 @@ func (ow *onepassWidget) Keybindings(ui *gocui.Gui) error {
 func (ow *onepassWidget) Layout(ui *gocui.Gui) error {
 	maxX, maxY := ui.Size()
 
-	if view, err := ui.SetView(ow.name, 0, 3, maxX-1, maxY-4); err != nil {
+	if view, err := setView(ui, ow.name, 0, 3, maxX-1, maxY-4); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index d4a6ecc..b36dc4c 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -269,7 +269,7 @@ func (dw *detailsWidget) Keybindings(ui *gocui.Gui) error {
 func (dw *detailsWidget) Layout(ui *gocui.Gui) error {
 	maxX, maxY := ui.Size()
 
-	if view, err := ui.SetView(dw.name, int(0.5*float32(maxX-2)+1), 4, maxX-2, maxY-5); err != nil {
+	if view, err := setView(ui, dw.name, int(0.5*float32(maxX-2)+1), 4, maxX-2, maxY-5); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
diff --git a/1pass-app/gui/errdialog.go b/1pass-app/gui/errdialog.go
index 63612de..22ceb19 100644
--- a/1pass-app/gui/errdialog.go
+++ b/1pass-app/gui/errdialog.go
@@ -36,7 +36,7 @@ func (ed *errorDialog) Keybindings(ui *gocui.Gui) error {
 func (ed *errorDialog) Layout(ui *gocui.Gui) error {
 	maxX, maxY := ui.Size()
 
-	if view, err := ui.SetView(ed.name, maxX/2-30, maxY/2-1, maxX/2+30, maxY/2+1); err != nil {
+	if view, err := setView(ui, ed.name, maxX/2-30, maxY/2-1, maxX/2+30, maxY/2+1); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
diff --git a/1pass-app/gui/gocui.go b/1pass-app/gui/gocui.go
index ddaefd2..46f2e4e 100644
--- a/1pass-app/gui/gocui.go
+++ b/1pass-app/gui/gocui.go
@@ -25,6 +25,19 @@ func NewGocuiGui(version string, guiControl in.GuiControl) *GocuiGui {
 	}
 }
 
+// set view of at least one cell (window may be too small for its layout)
+func setView(ui *gocui.Gui, name string, x0, y0, x1, y1 int) (*gocui.View, error) {
+	if x1 < x0+2 {
+		x1 = x0 + 2
+	}
+
+	if y1 < y0+2 {
+		y1 = y0 + 2
+	}
+
+	return ui.SetView(name, x0, y0, x1, y1)
+}
+
 func (gui *GocuiGui) quit(_ *gocui.Gui, _ *gocui.View) error {
 	return gocui.ErrQuit
 }
diff --git a/1pass-app/gui/helpwidget.go b/1pass-app/gui/helpwidget.go
index 9d9fa73..b2a4ccc 100644
--- a/1pass-app/gui/helpwidget.go
+++ b/1pass-app/gui/helpwidget.go
@@ -64,7 +64,7 @@ func (hw *helpWidget) update(ui *gocui.Gui) error {
 func (hw *helpWidget) Layout(ui *gocui.Gui) error {
 	maxX, maxY := ui.Size()
 
-	if view, err := ui.SetView(hw.name, 0, maxY-3, maxX-1, maxY-1); err != nil {
+	if view, err := setView(ui, hw.name, 0, maxY-3, maxX-1, maxY-1); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
diff --git a/1pass-app/gui/itemswidget.go b/1pass-app/gui/itemswidget.go
index 04457a8..9457315 100644
--- a/1pass-app/gui/itemswidget.go
+++ b/1pass-app/gui/itemswidget.go
@@ -255,7 +255,7 @@ func (iw *itemsWidget) Keybindings(ui *gocui.Gui) error {
 func (iw *itemsWidget) Layout(ui *gocui.Gui) error {
 	maxX, maxY := ui.Size()
 
-	if view, err := ui.SetView(iw.name, 1, 4, int(0.5*float32(maxX-2)), maxY-5); err != nil {
+	if view, err := setView(ui, iw.name, 1, 4, int(0.5*float32(maxX-2)), maxY-5); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
diff --git a/1pass-app/gui/passprompt.go b/1pass-app/gui/passprompt.go
index 7ec43f6..7ed8624 100644
--- a/1pass-app/gui/passprompt.go
+++ b/1pass-app/gui/passprompt.go
@@ -43,7 +43,7 @@ func (pp *passwordPrompt) Keybindings(ui *gocui.Gui) error {
 func (pp *passwordPrompt) Layout(ui *gocui.Gui) error {
 	maxX, maxY := ui.Size()
 
-	if view, err := ui.SetView(pp.name, maxX/2-30, maxY/2-1, maxX/2+30, maxY/2+1); err != nil {
+	if view, err := setView(ui, pp.name, maxX/2-30, maxY/2-1, maxX/2+30, maxY/2+1); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
diff --git a/1pass-app/gui/versionwidget.go b/1pass-app/gui/versionwidget.go
index e34f3a9..6c88e7a 100644
--- a/1pass-app/gui/versionwidget.go
+++ b/1pass-app/gui/versionwidget.go
@@ -59,7 +59,7 @@ func (vw *verWidget) show(ui *gocui.Gui, info *domain.UpdateInfo, err error) err
 func (vw *verWidget) Layout(ui *gocui.Gui) error {
 	maxX, _ := ui.Size()
 
-	if view, err := ui.SetView(vw.name, 0, 0, maxX-1, 2); err != nil {
+	if view, err := setView(ui, vw.name, 0, 0, maxX-1, 2); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
-- 
2.43.0


From 25797821e006b927502c4601b423569232c1cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 31/32] fix: show every item in exactly one row of the list

---
 1pass-app/gui/itemswidget.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/1pass-app/gui/itemswidget.go b/1pass-app/gui/itemswidget.go
index 9457315..ef5e80f 100644
--- a/1pass-app/gui/itemswidget.go
+++ b/1pass-app/gui/itemswidget.go
@@ -6,6 +6,7 @@ package gui
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/jroimartin/gocui"
 	"github.com/mashmb/1pass/1pass-core/core/domain"
@@ -18,6 +19,9 @@ Go back: Q
 Reveal item: TAB`
 )
 
+// list shows every item in exactly one line
+var lineBreaks = strings.NewReplacer("\r\n", " ", "\r", " ", "\n", " ")
+
 type itemsWidget struct {
 	currIdx       int
 	name          string
@@ -194,7 +198,7 @@ func (iw *itemsWidget) update(ui *gocui.Gui) error {
 				title = "<NO TITLE>"
 			}
 
-			position := fmt.Sprintf("%v\n", title)
+			position := fmt.Sprintf("%v\n", lineBreaks.Replace(title))
 			fmt.Fprint(view, position)
 		}
 
-- 
2.43.0


From 8f265b9f02cbc6c529d5522af43fe76d6aba576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 32/32] fix: carriage returns in titles and names do not hide
 shown text

---
 1pass-app/gui/detailswidget.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index b36dc4c..63a8df4 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -147,13 +147,13 @@ func (dw *detailsWidget) update(overview bool, ui *gocui.Gui) error {
 	if dw.item != nil {
 		fmt.Fprint(view, fmt.Sprintf("%v\n", dw.item.Category.GetName()))
 		fmt.Fprint(view, "------------------------------\n")
-		fmt.Fprint(view, fmt.Sprintf("%v\n\n", dw.item.Title))
+		fmt.Fprint(view, fmt.Sprintf("%v\n\n", lineEndings.Replace(dw.item.Title)))
 		updated := time.Unix(dw.item.Updated, 0).Format("2006-01-02 15:04:05")
 		created := time.Unix(dw.item.Created, 0).Format("2006-01-02 15:04:05")
 		fmt.Fprint(view, fmt.Sprintf("Updated: %v\nCreated: %v\nTrashed: %v\n", updated, created, dw.item.Trashed))
 
 		if dw.item.Url != "" {
-			fmt.Fprint(view, fmt.Sprintf("URL: %v\n", dw.item.Url))
+			fmt.Fprint(view, fmt.Sprintf("URL: %v\n", lineEndings.Replace(dw.item.Url)))
 		}
 
 		if overview {
@@ -162,14 +162,14 @@ func (dw *detailsWidget) update(overview bool, ui *gocui.Gui) error {
 					fmt.Fprint(view, "\n")
 
 					if section.Title != "" {
-						fmt.Fprint(view, fmt.Sprintf("%v\n", section.Title))
+						fmt.Fprint(view, fmt.Sprintf("%v\n", lineEndings.Replace(section.Title)))
 					}
 
 					fmt.Fprint(view, "------------------------------\n")
 
 					if section.Fields != nil {
 						for _, field := range section.Fields {
-							fmt.Fprint(view, fmt.Sprintf("%v: %v\n", field.Name, "**********"))
+							fmt.Fprint(view, fmt.Sprintf("%v: %v\n", lineEndings.Replace(field.Name), "**********"))
 						}
 					}
 				}
@@ -192,14 +192,14 @@ func (dw *detailsWidget) update(overview bool, ui *gocui.Gui) error {
 					fmt.Fprint(view, "\n")
 
 					if section.Title != "" {
-						fmt.Fprint(view, fmt.Sprintf("%v\n", section.Title))
+						fmt.Fprint(view, fmt.Sprintf("%v\n", lineEndings.Replace(section.Title)))
 					}
 
 					fmt.Fprint(view, "------------------------------\n")
 
 					if section.Fields != nil {
 						for _, field := range section.Fields {
-							fmt.Fprint(view, fmt.Sprintf("%v: %v\n", field.Name, lineEndings.Replace(field.Value)))
+							fmt.Fprint(view, fmt.Sprintf("%v: %v\n", lineEndings.Replace(field.Name), lineEndings.Replace(field.Value)))
 						}
 					}
 				}
-- 
2.43.0

