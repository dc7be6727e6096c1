From a2103b70fe1accaeb661b7e19a3d5e8c7c786b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:47 +0000
Subject: [PATCH 1/2] fix: flush all diagnostics before writing the linter
 error frame

---
 cmd/tsgolint/headless.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 8ed760f..a569350 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -450,14 +450,15 @@ func runHeadless(args []string) int {
 	})
 
 	close(diagnosticsChan)
+	// All diagnostics have to be flushed before anything else is written to stdout.
+	wg.Wait()
+
 	if err != nil {
 		log.Printf("ERROR: Linter failed: %v", err)
 		writeErrorMessage(fmt.Sprintf("error running linter: %v", err))
 		return 1
 	}
 
-	wg.Wait()
-
 	if opts.debugTimings {
 		if err := writeMessage(os.Stdout, headlessMessageTypeTiming, headlessTimingPayloadFromRecords(timingStore.Collect())); err != nil {
 			log.Printf("ERROR: failed to write timing output: %v", err)
-- 
2.43.0


From db2be383a12df8460fb0392f6290a0d0632d29cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:47 +0000
Subject: [PATCH 2/2] fix: do not drop diagnostics that quote invalid UTF-8

---
 cmd/tsgolint/headless.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index a569350..c7ffb47 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -13,6 +13,7 @@ import (
 	"sync"
 
 	"github.com/go-json-experiment/json"
+	"github.com/go-json-experiment/json/jsontext"
 
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/bundled"
@@ -193,7 +194,8 @@ func internalToAny(d diagnostic.Internal) anyDiagnostic {
 }
 
 func writeMessage(w io.Writer, messageType headlessMessageType, payload any) error {
-	payloadBytes, err := json.Marshal(payload)
+	// Source text is not necessarily valid UTF-8 and can end up in a message (e.g. as fix text).
+	payloadBytes, err := json.Marshal(payload, jsontext.AllowInvalidUTF8(true))
 	if err != nil {
 		return err
 	}
-- 
2.43.0

