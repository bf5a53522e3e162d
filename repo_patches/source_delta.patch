From 6330cbca80cfb673d302f95fe11e210bf6cc8b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:13 +0000
Subject: [PATCH 01/28] fix: keep evaluating an advisory's other ranges after a
 git range

---
 pkg/database/osv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 520ecca..01bddd2 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -139,7 +139,7 @@ type Affects []AffectsRange
 func (a Affects) affectsVersion(pkg internal.PackageDetails) bool {
 	for _, r := range a {
 		if r.Type != TypeEcosystem && r.Type != TypeSemver {
-			return false
+			continue
 		}
 		if r.containsVersion(pkg) {
 			return true
-- 
2.43.0


From 5d5691cd37c53ebcd6b6aa9aa3da902187ef28d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:45 +0000
Subject: [PATCH 02/28] fix: find advisories for packages whose ecosystem has a
 suffix

---
 pkg/database/mem-check.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/database/mem-check.go b/pkg/database/mem-check.go
index 9cad474..0af8396 100644
--- a/pkg/database/mem-check.go
+++ b/pkg/database/mem-check.go
@@ -55,7 +55,9 @@ func (db *memDB) Vulnerabilities(includeWithdrawn bool) []OSV {
 func (db *memDB) VulnerabilitiesAffectingPackage(pkg internal.PackageDetails) Vulnerabilities {
 	var vulnerabilities Vulnerabilities
 
-	hash := string(pkg.Ecosystem) + "-" + pkg.Name
+	// advisories are stored by ecosystem without the suffix, so the package has to
+	// be looked up in the same way - if the suffixes match is checked by IsAffected
+	hash := string(Package{Ecosystem: pkg.Ecosystem}.NormalizedEcosystem()) + "-" + pkg.Name
 
 	if vulns, ok := db.vulnerabilities[hash]; ok {
 		for _, vulnerability := range vulns {
-- 
2.43.0


From 1618e4fe310ddf5d47f1158cba5b1855e5e61aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:19 +0000
Subject: [PATCH 03/28] fix: give every lockfile its own config when configs
 are disabled

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 21ef194..60e6af6 100644
--- a/main.go
+++ b/main.go
@@ -445,9 +445,9 @@ func readAllLockfiles(
 			}
 
 			config = &con
-		} else if config.FilePath != "" {
-			// if there's a global config, then copy it - otherwise all lockfiles
-			// will hold a reference to the same config, which can result in configs
+		} else {
+			// copy the global config - otherwise all lockfiles will hold
+			// a reference to the same config, which can result in configs
 			// for ecosystem-specific databases being used unnecessarily for lockfiles
 			// that don't have any packages that are part of that ecosystem
 			config = &configer.Config{
-- 
2.43.0


From f98c4456e8b3eee0b181f483975f4f8295c6b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:35 +0000
Subject: [PATCH 04/28] fix: don't use a cached database that could not be
 parsed

---
 pkg/database/zip.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 4d7f8f6..6fdaf55 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -57,6 +57,9 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 		if err != nil {
 			_, _ = fmt.Fprintf(os.Stderr, "Failed to parse cache from %s: %v\n", cachePath, err)
+
+			// the cache could have been partially parsed
+			cache = nil
 		}
 	}
 
@@ -88,7 +91,7 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 	defer resp.Body.Close()
 
-	if resp.StatusCode == http.StatusNotModified {
+	if resp.StatusCode == http.StatusNotModified && cache != nil {
 		db.UpdatedAt = cache.Date
 
 		return cache.Body, nil
-- 
2.43.0


From c0a29d754581d8dc8567909d81494b90f7db7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:10 +0000
Subject: [PATCH 05/28] fix: find pnpm packages that have scoped peer
 dependencies

The peers of a package are part of its path in v6 lockfiles, so the slash in
the name of a scoped peer resulted in the package being silently left out
---
 pkg/lockfile/parse-pnpm-lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index 8372054..d49b08d 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -87,6 +87,10 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 		return name, version, nil
 	}
 
+	// peer dependencies in v6 lockfiles are attached to the end of the path in
+	// brackets, and can be scoped meaning they can also have slashes of their own
+	dependencyPath, _, _ = strings.Cut(dependencyPath, "(")
+
 	parts := strings.Split(dependencyPath, "/")
 
 	if len(parts) == 1 {
-- 
2.43.0


From 2b4352e9ec03e08acbb26aeb99ae405b329f4379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:47 +0000
Subject: [PATCH 06/28] fix: find pnpm packages whose version has build
 metadata

---
 pkg/lockfile/parse-pnpm-lock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index d49b08d..3733713 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -132,7 +132,7 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 
 func parseNameAtVersion(value string) (name string, version string) {
 	// look for pattern "name@version", where name is allowed to contain zero or more "@"
-	matches := cachedregexp.MustCompile(`^(.+)@([\w.-]+)(?:\(|$)`).FindStringSubmatch(value)
+	matches := cachedregexp.MustCompile(`^(.+)@([\w.+-]+)(?:\(|$)`).FindStringSubmatch(value)
 
 	if len(matches) != 3 {
 		return name, ""
-- 
2.43.0


From 5e7c8fdd117c6bee547b58bce4073e47ccb3b027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:59 +0000
Subject: [PATCH 07/28] fix: only use the version specifiers of a requirement
 to determine its version

---
 pkg/lockfile/parse-requirements-txt.go | 36 ++++++++++----------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index 46023fb..f09bd59 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -16,33 +16,25 @@ const PipEcosystem Ecosystem = "PyPI"
 //
 //	https://pip.pypa.io/en/stable/reference/requirements-file-format/#example
 func parseLine(line string) PackageDetails {
-	var constraint string
-	name := line
+	// environment markers and per-requirement options come after the requirement
+	// itself, and can include things that look like a version specifier
+	line, _, _ = strings.Cut(line, ";")
+	line, _, _ = strings.Cut(line, " --")
 
+	name := line
 	version := "0.0.0"
 
-	if strings.Contains(line, "==") {
-		constraint = "=="
-	}
+	if i := strings.IndexAny(line, "=<>!~"); i != -1 {
+		name = line[:i]
 
-	if strings.Contains(line, ">=") {
-		constraint = ">="
-	}
+		for _, specifier := range strings.Split(line[i:], ",") {
+			matches := cachedregexp.MustCompile(`^\s*(?:===?|~=|>=?)\s*(\S+)`).FindStringSubmatch(specifier)
 
-	if strings.Contains(line, "~=") {
-		constraint = "~="
-	}
+			if matches != nil {
+				version = matches[1]
 
-	if strings.Contains(line, "!=") {
-		constraint = "!="
-	}
-
-	if constraint != "" {
-		unprocessedName, unprocessedVersion, _ := strings.Cut(line, constraint)
-		name = strings.TrimSpace(unprocessedName)
-
-		if constraint != "!=" {
-			version, _, _ = strings.Cut(strings.TrimSpace(unprocessedVersion), " ")
+				break
+			}
 		}
 	}
 
@@ -71,7 +63,7 @@ func normalizedRequirementName(name string) string {
 	name = strings.ToLower(name)
 	name, _, _ = strings.Cut(name, "[")
 
-	return name
+	return strings.TrimSpace(name)
 }
 
 func removeComments(line string) string {
-- 
2.43.0


From 5d6a4b8e27fc4656fcf659b7f2a771742a66ca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:02 +0000
Subject: [PATCH 08/28] fix: don't apply go.mod replacements to modules that
 are themselves replacements

---
 pkg/lockfile/parse-go-lock.go | 47 ++++++++++++++---------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/pkg/lockfile/parse-go-lock.go b/pkg/lockfile/parse-go-lock.go
index 31a79e6..2b73b2c 100644
--- a/pkg/lockfile/parse-go-lock.go
+++ b/pkg/lockfile/parse-go-lock.go
@@ -36,43 +36,34 @@ func ParseGoLock(pathToLockfile string) ([]PackageDetails, error) {
 	packages := map[string]PackageDetails{}
 
 	for _, require := range parsedLockfile.Require {
-		packages[require.Mod.Path+"@"+require.Mod.Version] = PackageDetails{
-			Name:      require.Mod.Path,
-			Version:   strings.TrimPrefix(require.Mod.Version, "v"),
-			Ecosystem: GoEcosystem,
-			CompareAs: GoEcosystem,
-		}
-	}
-
-	for _, replace := range parsedLockfile.Replace {
-		var replacements []string
+		mod := require.Mod
 
-		if replace.Old.Version == "" {
-			// If the left version is omitted, all versions of the module are replaced.
-			for k, pkg := range packages {
-				if pkg.Name == replace.Old.Path {
-					replacements = append(replacements, k)
-				}
+		for _, replace := range parsedLockfile.Replace {
+			if replace.Old.Path != require.Mod.Path {
+				continue
 			}
-		} else {
+
 			// If a version is present on the left side of the arrow (=>),
 			// only that specific version of the module is replaced
-			s := replace.Old.Path + "@" + replace.Old.Version
+			if replace.Old.Version == require.Mod.Version {
+				mod = replace.New
 
-			// A `replace` directive has no effect if the module version on the left side is not required.
-			if _, ok := packages[s]; ok {
-				replacements = []string{s}
+				break
 			}
-		}
 
-		for _, replacement := range replacements {
-			packages[replacement] = PackageDetails{
-				Name:      replace.New.Path,
-				Version:   strings.TrimPrefix(replace.New.Version, "v"),
-				Ecosystem: GoEcosystem,
-				CompareAs: GoEcosystem,
+			// If the left version is omitted, all versions of the module are replaced
+			// except for those that have a replacement for their specific version.
+			if replace.Old.Version == "" {
+				mod = replace.New
 			}
 		}
+
+		packages[require.Mod.Path+"@"+require.Mod.Version] = PackageDetails{
+			Name:      mod.Path,
+			Version:   strings.TrimPrefix(mod.Version, "v"),
+			Ecosystem: GoEcosystem,
+			CompareAs: GoEcosystem,
+		}
 	}
 
 	return pkgDetailsMapToSlice(deduplicatePackages(packages)), nil
-- 
2.43.0


From a7fa76c78d37d4a13b2142ac6fbb05bc0167da9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:04 +0000
Subject: [PATCH 09/28] fix: only treat whole lines as the start of a section
 in Gemfile.lock

---
 pkg/lockfile/parse-gemfile-lock.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/lockfile/parse-gemfile-lock.go b/pkg/lockfile/parse-gemfile-lock.go
index 5c7dc40..9017362 100644
--- a/pkg/lockfile/parse-gemfile-lock.go
+++ b/pkg/lockfile/parse-gemfile-lock.go
@@ -29,10 +29,10 @@ const parserStateRuby parserState = "ruby"
 const parserStateBundledWith parserState = "bundled_with"
 
 func isSourceSection(line string) bool {
-	return strings.Contains(line, lockfileSectionGIT) ||
-		strings.Contains(line, lockfileSectionGEM) ||
-		strings.Contains(line, lockfileSectionPATH) ||
-		strings.Contains(line, lockfileSectionPLUGIN)
+	return line == lockfileSectionGIT ||
+		line == lockfileSectionGEM ||
+		line == lockfileSectionPATH ||
+		line == lockfileSectionPLUGIN
 }
 
 type gemfileLockfileParser struct {
-- 
2.43.0


From bbb5ae75ad7321db311cfbdccc0d1a61a7622f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:06 +0000
Subject: [PATCH 10/28] fix: resolve every property used in the version of a
 pom.xml dependency

---
 pkg/lockfile/parse-maven-lock.go | 39 +++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index 671a53f..d2db36b 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -28,26 +28,33 @@ func (mld MavenLockDependency) parseResolvedVersion(version string) string {
 }
 
 func (mld MavenLockDependency) resolveVersionValue(lockfile MavenLockFile) string {
-	interpolationReg := cachedregexp.MustCompile(`\${(.+)}`)
+	interpolationReg := cachedregexp.MustCompile(`\${([^}]+)}`)
 
-	results := interpolationReg.FindStringSubmatch(mld.Version)
+	resolved := true
+	version := interpolationReg.ReplaceAllStringFunc(mld.Version, func(match string) string {
+		property := interpolationReg.FindStringSubmatch(match)[1]
 
-	// no interpolation, so just return the version as-is
-	if results == nil {
-		return mld.Version
-	}
-	if val, ok := lockfile.Properties.m[results[1]]; ok {
-		return val
-	}
+		if val, ok := lockfile.Properties.m[property]; ok {
+			return val
+		}
+
+		resolved = false
 
-	fmt.Fprintf(
-		os.Stderr,
-		"Failed to resolve version of %s: property \"%s\" could not be found\n",
-		mld.GroupID+":"+mld.ArtifactID,
-		results[1],
-	)
+		fmt.Fprintf(
+			os.Stderr,
+			"Failed to resolve version of %s: property \"%s\" could not be found\n",
+			mld.GroupID+":"+mld.ArtifactID,
+			property,
+		)
+
+		return ""
+	})
+
+	if !resolved {
+		return "0"
+	}
 
-	return "0"
+	return version
 }
 
 func (mld MavenLockDependency) ResolveVersion(lockfile MavenLockFile) string {
-- 
2.43.0


From 343cc1c63ce323f99348695986683a95fa50fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:09 +0000
Subject: [PATCH 11/28] fix: use the managed version of pom.xml dependencies
 that don't have their own

---
 pkg/lockfile/parse-maven-lock.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/lockfile/parse-maven-lock.go b/pkg/lockfile/parse-maven-lock.go
index d2db36b..202fd80 100644
--- a/pkg/lockfile/parse-maven-lock.go
+++ b/pkg/lockfile/parse-maven-lock.go
@@ -137,6 +137,11 @@ func ParseMavenLock(pathToLockfile string) ([]PackageDetails, error) {
 	for _, lockPackage := range parsedLockfile.Dependencies {
 		finalName := lockPackage.GroupID + ":" + lockPackage.ArtifactID
 
+		// the version of dependencies that don't specify one can be managed
+		if _, ok := details[finalName]; ok && lockPackage.Version == "" {
+			continue
+		}
+
 		details[finalName] = PackageDetails{
 			Name:      finalName,
 			Version:   lockPackage.ResolveVersion(*parsedLockfile),
-- 
2.43.0


From 6984c6abdfbbe3d6dc67622f46a71fd5ee999530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:25 +0000
Subject: [PATCH 12/28] fix: don't crash on JSON lockfiles that are null

---
 pkg/lockfile/parse-bun-lock.go      | 2 +-
 pkg/lockfile/parse-composer-lock.go | 2 +-
 pkg/lockfile/parse-npm-lock.go      | 4 ++--
 pkg/lockfile/parse-nuget-lock.go    | 4 ++--
 pkg/lockfile/parse-pipenv-lock.go   | 2 +-
 pkg/lockfile/parse-renv-lock.go     | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index e4857d8..9aaa34f 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -49,7 +49,7 @@ func structurePackageDetails(pkg []any) (string, string, string) {
 }
 
 func ParseBunLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *BunLockfile
+	var parsedLockfile BunLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-composer-lock.go b/pkg/lockfile/parse-composer-lock.go
index 55d0740..d840c5d 100644
--- a/pkg/lockfile/parse-composer-lock.go
+++ b/pkg/lockfile/parse-composer-lock.go
@@ -34,7 +34,7 @@ func extractCommit(pkg ComposerPackage) string {
 }
 
 func ParseComposerLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *ComposerLock
+	var parsedLockfile ComposerLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index 1ed5d65..d741b0a 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -152,7 +152,7 @@ func parseNpmLock(lockfile NpmLockfile) map[string]PackageDetails {
 }
 
 func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NpmLockfile
+	var parsedLockfile NpmLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -166,5 +166,5 @@ func ParseNpmLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, err)
 	}
 
-	return pkgDetailsMapToSlice(parseNpmLock(*parsedLockfile)), nil
+	return pkgDetailsMapToSlice(parseNpmLock(parsedLockfile)), nil
 }
diff --git a/pkg/lockfile/parse-nuget-lock.go b/pkg/lockfile/parse-nuget-lock.go
index 5456526..79681ab 100644
--- a/pkg/lockfile/parse-nuget-lock.go
+++ b/pkg/lockfile/parse-nuget-lock.go
@@ -51,7 +51,7 @@ func parseNuGetLock(lockfile NuGetLockfile) ([]PackageDetails, error) {
 var ErrNuGetUnsupportedLockfileVersion = errors.New("unsupported lockfile version")
 
 func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *NuGetLockfile
+	var parsedLockfile NuGetLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
@@ -69,5 +69,5 @@ func ParseNuGetLock(pathToLockfile string) ([]PackageDetails, error) {
 		return []PackageDetails{}, fmt.Errorf("could not parse %s: %w", pathToLockfile, ErrNuGetUnsupportedLockfileVersion)
 	}
 
-	return parseNuGetLock(*parsedLockfile)
+	return parseNuGetLock(parsedLockfile)
 }
diff --git a/pkg/lockfile/parse-pipenv-lock.go b/pkg/lockfile/parse-pipenv-lock.go
index 47ecbf7..1ecd5d4 100644
--- a/pkg/lockfile/parse-pipenv-lock.go
+++ b/pkg/lockfile/parse-pipenv-lock.go
@@ -18,7 +18,7 @@ type PipenvLock struct {
 const PipenvEcosystem = PipEcosystem
 
 func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *PipenvLock
+	var parsedLockfile PipenvLock
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
diff --git a/pkg/lockfile/parse-renv-lock.go b/pkg/lockfile/parse-renv-lock.go
index e44c29a..c286c96 100644
--- a/pkg/lockfile/parse-renv-lock.go
+++ b/pkg/lockfile/parse-renv-lock.go
@@ -19,7 +19,7 @@ type RenvLockfile struct {
 const CRANEcosystem Ecosystem = "CRAN"
 
 func ParseRenvLock(pathToLockfile string) ([]PackageDetails, error) {
-	var parsedLockfile *RenvLockfile
+	var parsedLockfile RenvLockfile
 
 	lockfileContents, err := os.ReadFile(pathToLockfile)
 
-- 
2.43.0


From 6dfe3bb21f0087c921fcefbafe25e1c92c45d1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:27 +0000
Subject: [PATCH 13/28] fix: don't crash on short versions in Pipfile.lock

---
 pkg/lockfile/parse-pipenv-lock.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/lockfile/parse-pipenv-lock.go b/pkg/lockfile/parse-pipenv-lock.go
index 1ecd5d4..e06d63b 100644
--- a/pkg/lockfile/parse-pipenv-lock.go
+++ b/pkg/lockfile/parse-pipenv-lock.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"os"
+	"strings"
 )
 
 type PipenvPackage struct {
@@ -39,7 +40,7 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 			continue
 		}
 
-		version := pipenvPackage.Version[2:]
+		version := strings.TrimPrefix(pipenvPackage.Version, "==")
 
 		packages[name+"@"+version] = PackageDetails{
 			Name:      name,
@@ -54,7 +55,7 @@ func ParsePipenvLock(pathToLockfile string) ([]PackageDetails, error) {
 			continue
 		}
 
-		version := pipenvPackage.Version[2:]
+		version := strings.TrimPrefix(pipenvPackage.Version, "==")
 
 		packages[name+"@"+version] = PackageDetails{
 			Name:      name,
-- 
2.43.0


From bd8c6c16cc6ad8391f78494668377cbc8a0c5899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:29 +0000
Subject: [PATCH 14/28] fix: don't crash on aliases without a version in
 package-lock.json

---
 pkg/lockfile/parse-npm-lock.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index d741b0a..1aab6df 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -67,10 +67,14 @@ func parseNpmLockDependencies(dependencies map[string]NpmLockDependency) map[str
 			finalVersion = ""
 		} else {
 			// use the name of the underlying package rather than the alias
-			if strings.HasPrefix(detail.Version, "npm:") {
-				i := strings.LastIndex(detail.Version, "@")
-				name = detail.Version[4:i]
-				finalVersion = detail.Version[i+1:]
+			if alias, ok := strings.CutPrefix(detail.Version, "npm:"); ok {
+				name = alias
+				finalVersion = ""
+
+				if i := strings.LastIndex(alias, "@"); i > 0 {
+					name = alias[:i]
+					finalVersion = alias[i+1:]
+				}
 			}
 
 			commit = tryExtractCommit(detail.Version)
-- 
2.43.0


From 3ced200010e648e4921137a430ea0dfd319eb993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:31 +0000
Subject: [PATCH 15/28] fix: don't crash on empty tuples in bun.lock

---
 pkg/lockfile/parse-bun-lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index 9aaa34f..9d3db9b 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -19,6 +19,10 @@ const BunEcosystem = NpmEcosystem
 // structurePackageDetails returns the name, version, and commit of a package
 // specified as a tuple in a bun.lock
 func structurePackageDetails(pkg []any) (string, string, string) {
+	if len(pkg) == 0 {
+		return "", "", ""
+	}
+
 	str, ok := pkg[0].(string)
 
 	if !ok {
-- 
2.43.0


From 8a1f332049d64fa464c29d21e7aaa12415cfc56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:33 +0000
Subject: [PATCH 16/28] fix: don't crash on scopes without a package in
 pnpm-lock.yaml

---
 pkg/lockfile/parse-pnpm-lock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse-pnpm-lock.go b/pkg/lockfile/parse-pnpm-lock.go
index 3733713..e211d47 100644
--- a/pkg/lockfile/parse-pnpm-lock.go
+++ b/pkg/lockfile/parse-pnpm-lock.go
@@ -102,6 +102,10 @@ func extractPnpmPackageNameAndVersion(dependencyPath string, lockfileVersion flo
 	parts = parts[1:]
 
 	if strings.HasPrefix(parts[0], "@") {
+		if len(parts) == 1 {
+			return "", "", errInvalidPackagePath
+		}
+
 		name = strings.Join(parts[:2], "/")
 		parts = parts[2:]
 	} else {
-- 
2.43.0


From 17c1cd95b81d8689244fc52d13f0224875bd7d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:00 +0000
Subject: [PATCH 17/28] fix: don't crash on versions that cannot be compared

---
 pkg/database/osv.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 01bddd2..94991dc 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -93,7 +93,13 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 		return false
 	}
 
-	vp := semantic.MustParse(pkg.Version, string(pkg.CompareAs))
+	vp, err := semantic.Parse(pkg.Version, string(pkg.CompareAs))
+
+	// if the version can't be compared then we can't tell that it's not affected,
+	// and it's better to have false positives than false negatives
+	if err != nil {
+		return true
+	}
 
 	sort.Slice(ar.Events, func(i, j int) bool {
 		a := ar.Events[i]
@@ -107,8 +113,14 @@ func (ar AffectsRange) containsVersion(pkg internal.PackageDetails) bool {
 			return false
 		}
 
+		va, err := semantic.Parse(a.version(), string(pkg.CompareAs))
+
+		if err != nil {
+			return false
+		}
+
 		// Ignore errors as we assume the version is correct
-		order, _ := semantic.MustParse(a.version(), string(pkg.CompareAs)).CompareStr(b.version())
+		order, _ := va.CompareStr(b.version())
 
 		return order < 0
 	})
-- 
2.43.0


From a5175b4d278a38aec1e9967c487b58d728fff850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:56 +0000
Subject: [PATCH 18/28] fix: list packages that differ only by their commit in
 a fixed order

---
 pkg/lockfile/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse.go b/pkg/lockfile/parse.go
index ec3e6a4..110c297 100644
--- a/pkg/lockfile/parse.go
+++ b/pkg/lockfile/parse.go
@@ -136,6 +136,10 @@ func Parse(pathToLockfile string, parseAs string) (Lockfile, error) {
 
 	sort.Slice(packages, func(i, j int) bool {
 		if packages[i].Name == packages[j].Name {
+			if packages[i].Version == packages[j].Version {
+				return packages[i].Commit < packages[j].Commit
+			}
+
 			return packages[i].Version < packages[j].Version
 		}
 
-- 
2.43.0


From c598e26362aa3332d9d7e1af24ca6b4c0c20562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:09 +0000
Subject: [PATCH 19/28] fix: don't cut descriptions in the middle of a
 character

---
 pkg/database/osv.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/database/osv.go b/pkg/database/osv.go
index 94991dc..fc9fb07 100644
--- a/pkg/database/osv.go
+++ b/pkg/database/osv.go
@@ -9,6 +9,7 @@ import (
 	"strings"
 	"time"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/g-rath/osv-detector/internal"
 	"github.com/g-rath/osv-detector/internal/cachedregexp"
@@ -242,7 +243,8 @@ func truncate(str string, limit int) string {
 			// ideally we want to keep words whole when truncating,
 			// but if we can't find a space just truncate at the limit
 			if truncateAt == -1 {
-				truncateAt = limit
+				_, size := utf8.DecodeRuneInString(str[i:])
+				truncateAt = i + size
 			}
 
 			return str[:truncateAt] + "..."
-- 
2.43.0


From 4578fb00fc763232285d3e52e5300b00435dd8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:57 +0000
Subject: [PATCH 20/28] fix: only use files in the working directory of zip
 databases, not in directories that start with its name

---
 pkg/database/zip.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index 6fdaf55..a92385b 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -11,6 +11,7 @@ import (
 	"io"
 	"net/http"
 	"os"
+	"path"
 	"path/filepath"
 	"slices"
 	"strings"
@@ -189,9 +190,16 @@ func (db *ZipDB) load(pkgNames []string) error {
 		return fmt.Errorf("could not read OSV database archive: %w", err)
 	}
 
+	// the names of directories in zip archives are always relative and separated by slashes
+	workingDirectory := strings.TrimPrefix(path.Clean("/"+db.WorkingDirectory), "/")
+
+	if workingDirectory != "" {
+		workingDirectory += "/"
+	}
+
 	// Read all the files from the zip archive
 	for _, zipFile := range zipReader.File {
-		if !strings.HasPrefix(zipFile.Name, db.WorkingDirectory) {
+		if !strings.HasPrefix(zipFile.Name, workingDirectory) {
 			continue
 		}
 
-- 
2.43.0


From 98f1193bedf4f645281c7f19c74582d0eeed08e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:37 +0000
Subject: [PATCH 21/28] fix: load a directory database that is reached through
 a symbolic link

Walking does not follow links, so a database directory that is itself a
symbolic link was silently loaded as an empty database.
---
 pkg/database/dir.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/database/dir.go b/pkg/database/dir.go
index 8a20564..0941aa6 100644
--- a/pkg/database/dir.go
+++ b/pkg/database/dir.go
@@ -46,6 +46,15 @@ func (db *DirDB) load(pkgNames []string) error {
 	p := filepath.Join(strings.TrimPrefix(u.Path, "/"), db.WorkingDirectory)
 	errored := false
 
+	// walking does not follow symbolic links, which includes the one being started from
+	if info, err := os.Lstat(p); err == nil && info.Mode()&fs.ModeSymlink != 0 {
+		p, err = filepath.EvalSymlinks(p)
+
+		if err != nil {
+			return fmt.Errorf("could not read OSV database directory: %w", err)
+		}
+	}
+
 	err = filepath.Walk(p, func(path string, info fs.FileInfo, err error) error {
 		if info == nil {
 			return err
-- 
2.43.0


From d1705b6c6428631d63c8293192caec6c4de80a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:16 +0000
Subject: [PATCH 22/28] fix: follow absolute paths to other files in
 requirements.txt

---
 pkg/lockfile/parse-requirements-txt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index f09bd59..aad54ae 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -121,7 +121,9 @@ func parseRequirementsTxt(pathToLockfile string, requiredAlready map[string]stru
 		line = removeComments(line)
 
 		if ar, ok := strings.CutPrefix(line, "-r "); ok {
-			ar = filepath.Join(filepath.Dir(pathToLockfile), ar)
+			if !filepath.IsAbs(ar) {
+				ar = filepath.Join(filepath.Dir(pathToLockfile), ar)
+			}
 
 			if _, ok := requiredAlready[ar]; ok {
 				continue
-- 
2.43.0


From 0d10fba76aab1d57c543799e70f2b312aa2a18ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:26 +0000
Subject: [PATCH 23/28] fix: do not report links to other packages in npm
 lockfiles as packages without a version

---
 pkg/lockfile/parse-npm-lock.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/lockfile/parse-npm-lock.go b/pkg/lockfile/parse-npm-lock.go
index 1aab6df..8714a0b 100644
--- a/pkg/lockfile/parse-npm-lock.go
+++ b/pkg/lockfile/parse-npm-lock.go
@@ -18,6 +18,7 @@ type NpmLockPackage struct {
 	Name         string            `json:"name"`
 	Version      string            `json:"version"`
 	Resolved     string            `json:"resolved"`
+	Link         bool              `json:"link"`
 	Dependencies map[string]string `json:"dependencies"`
 }
 
@@ -120,6 +121,12 @@ func parseNpmLockPackages(packages map[string]NpmLockPackage) map[string]Package
 			continue
 		}
 
+		// links have no version of their own, as they point at another package in
+		// the lockfile, which is the one that has the actual details
+		if _, ok := packages[detail.Resolved]; ok && detail.Link {
+			continue
+		}
+
 		finalName := detail.Name
 		if finalName == "" {
 			finalName = extractNpmPackageName(namePath)
-- 
2.43.0


From fe084a7e321347e971d38fcff9897209ebb944a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:30 +0000
Subject: [PATCH 24/28] fix: keep archives that come without an ETag or a date
 for using offline

---
 pkg/database/zip.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/database/zip.go b/pkg/database/zip.go
index a92385b..aee182f 100644
--- a/pkg/database/zip.go
+++ b/pkg/database/zip.go
@@ -113,9 +113,7 @@ func (db *ZipDB) fetchZip() ([]byte, error) {
 
 	db.UpdatedAt = date
 
-	if etag != "" || date != "" {
-		cache = &Cache{ETag: etag, Date: date, Body: body, URL: db.ArchiveURL}
-	}
+	cache = &Cache{ETag: etag, Date: date, Body: body, URL: db.ArchiveURL}
 
 	cacheContents, err := json.Marshal(cache)
 
-- 
2.43.0


From 08725ac876c27f80cacd45f9e0c7104225653818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:34 +0000
Subject: [PATCH 25/28] fix: do not report the root package of uv lockfiles
 when it is editable

---
 pkg/lockfile/parse-uv-lock.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/lockfile/parse-uv-lock.go b/pkg/lockfile/parse-uv-lock.go
index dbf7bbb..f549d92 100644
--- a/pkg/lockfile/parse-uv-lock.go
+++ b/pkg/lockfile/parse-uv-lock.go
@@ -9,8 +9,9 @@ import (
 )
 
 type UvLockPackageSource struct {
-	Virtual string `toml:"virtual"`
-	Git     string `toml:"git"`
+	Virtual  string `toml:"virtual"`
+	Editable string `toml:"editable"`
+	Git      string `toml:"git"`
 }
 
 type UvLockPackage struct {
@@ -53,7 +54,7 @@ func ParseUvLock(pathToLockfile string) ([]PackageDetails, error) {
 
 	for _, lockPackage := range parsedLockfile.Packages {
 		// skip including the root "package", since its name and version are most likely arbitrary
-		if lockPackage.Source.Virtual == "." {
+		if lockPackage.Source.Virtual == "." || lockPackage.Source.Editable == "." {
 			continue
 		}
 
-- 
2.43.0


From 10bc35eba3386343664e88d087b147d09f8b85d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:06 +0000
Subject: [PATCH 26/28] fix: follow every spelling of the option for including
 other files in requirements.txt

---
 pkg/lockfile/parse-requirements-txt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index aad54ae..f1bc20b 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -120,7 +120,9 @@ func parseRequirementsTxt(pathToLockfile string, requiredAlready map[string]stru
 
 		line = removeComments(line)
 
-		if ar, ok := strings.CutPrefix(line, "-r "); ok {
+		if matches := cachedregexp.MustCompile(`^(?:-r\s*|--requirement(?:\s+|=))(\S.*)$`).FindStringSubmatch(line); matches != nil {
+			ar := matches[1]
+
 			if !filepath.IsAbs(ar) {
 				ar = filepath.Join(filepath.Dir(pathToLockfile), ar)
 			}
-- 
2.43.0


From c2e718d2bfdb11c07cdacdb376a7e5b27f6eaf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:22 +0000
Subject: [PATCH 27/28] fix: do not use where a package comes from as its
 version in bun lockfiles

---
 pkg/lockfile/parse-bun-lock.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/lockfile/parse-bun-lock.go b/pkg/lockfile/parse-bun-lock.go
index 9d3db9b..f184e88 100644
--- a/pkg/lockfile/parse-bun-lock.go
+++ b/pkg/lockfile/parse-bun-lock.go
@@ -44,8 +44,9 @@ func structurePackageDetails(pkg []any) (string, string, string) {
 		version = ""
 	}
 
-	// file dependencies do not have a semantic version recorded
-	if strings.HasPrefix(version, "file:") {
+	// only dependencies from a registry have a semantic version recorded,
+	// the others (such as files and workspaces) have where they come from
+	if strings.Contains(version, ":") {
 		version = ""
 	}
 
-- 
2.43.0


From 81bd295b82342f0049ac6602a485b0f326744b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:39 +0000
Subject: [PATCH 28/28] fix: find direct references in requirements.txt under
 their name

---
 pkg/lockfile/parse-requirements-txt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/lockfile/parse-requirements-txt.go b/pkg/lockfile/parse-requirements-txt.go
index f1bc20b..ebcf9f8 100644
--- a/pkg/lockfile/parse-requirements-txt.go
+++ b/pkg/lockfile/parse-requirements-txt.go
@@ -21,6 +21,10 @@ func parseLine(line string) PackageDetails {
 	line, _, _ = strings.Cut(line, ";")
 	line, _, _ = strings.Cut(line, " --")
 
+	// direct references have where to get the package from, which could include
+	// things that look like a version specifier too, rather than a version
+	line, _, _ = strings.Cut(line, "@")
+
 	name := line
 	version := "0.0.0"
 
-- 
2.43.0

