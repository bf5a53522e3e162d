package main

import (
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC13Text", verifC13Text)
var _ = zzsym.Reg("verifC15Text", verifC15Text)
var _ = zzsym.Reg("verifC16Text", verifC16Text)
var _ = zzsym.Reg("verifC17Text", verifC17Text)
var _ = zzsym.Reg("verifC18Text", verifC18Text)
var _ = zzsym.Reg("verifC19Text", verifC19Text)
var _ = zzsym.Reg("verifC20Text", verifC20Text)
var _ = zzsym.Reg("verifC21Text", verifC21Text)
var _ = zzsym.Reg("verifC22Text", verifC22Text)
var _ = zzsym.Reg("verifC23Text", verifC23Text)
var _ = zzsym.Reg("verifC26Mixed", verifC26Mixed)
var _ = zzsym.Reg("verifC13Same", verifC13Same)
var _ = zzsym.Reg("verifC06Count", verifC06Count)
var _ = zzsym.Reg("verifC08Details", verifC08Details)

const (
	vLower   = "abcdefghijklmnopqrstuvwxyz"
	vDigits  = "0123456789"
	vNameSet = vLower + "ABCDEFGHIJKLMNOPQRSTUVWXYZ" + vDigits + "-_."
	vVerSet  = vLower + vDigits + ".-+"
	vHexSet  = "abcdef" + vDigits
)

// vForm is one way a lockfile writes a package, with N, V and C for its name, version and commit.
type vForm struct {
	file, eco string
	doc       string
	name      string // what the name is with N for the text, N if empty
	ver       string // what the version is with V for the text, V if empty
	nover     bool   // the version is not recorded
	names     string // characters a name may have, vNameSet if empty
	vers      string
}

func vTextOf(name, first, rest string, n int) string {
	return zzsym.Str(name+"0", 1, first) + zzsym.Str(name, n-1, rest)
}

// vForms reads a lockfile holding one package among others, with long texts of its own.
func vForms(forms []vForm) {
	f := forms[zzsym.Choice("form", len(forms))]
	set := f.names
	if set == "" {
		set = vNameSet
	}
	vset := f.vers
	if vset == "" {
		vset = vVerSet
	}
	n := vTextOf("name", strings.Trim(set, "-_."), set, []int{2, 8, 14 + 10*zzsym.Tier()}[zzsym.Choice("n", 3)])
	w := vWant{name: n, ver: vTextOf("ver", vDigits, vset, []int{2, 9 + 6*zzsym.Tier()}[zzsym.Choice("v", 2)])}
	doc := f.doc
	if strings.Contains(doc, "<C>") {
		w.commit = zzsym.Str("commit", []int{7, 40}[zzsym.Choice("c", 2)], vHexSet)
	}
	doc = strings.ReplaceAll(doc, "<N>", n)
	doc = strings.ReplaceAll(doc, "<V>", w.ver)
	doc = strings.ReplaceAll(doc, "<C>", w.commit)
	if f.name != "" {
		w.name = strings.ReplaceAll(f.name, "<N>", n)
	}
	if f.ver != "" {
		w.ver = strings.ReplaceAll(f.ver, "<V>", w.ver)
	}
	if f.nover {
		w.ver = ""
	}
	zzsym.PutFile(f.file, doc)
	out, ps := vList(f.file)
	zzsym.Assert(out.code == 0 && len(ps) == 1, "the package of the lockfile is found")
	if len(ps) == 1 {
		zzsym.Assert(ps[0].Name == w.name, "the package is found under its very name")
		zzsym.Assert(ps[0].Version == w.ver, "the package is found with its very version")
		zzsym.Assert(ps[0].Commit == w.commit, "the package is found with its very commit")
		zzsym.Assert(ps[0].Ecosystem == f.eco && ps[0].CompareAs == f.eco, "packages belong to the ecosystem of the lockfile")
	}
	vObs(out, ps)
}

func verifC15Text() {
	vForms([]vForm{
		{file: "package-lock.json", eco: "npm", doc: `{"lockfileVersion":1,"dependencies":{"<N>":{"version":"<V>","resolved":"https://registry.npmjs.org/x/-/x.tgz"}}}`},
		{file: "package-lock.json", eco: "npm", doc: `{"lockfileVersion":1,"dependencies":{"@s/<N>":{"version":"<V>","dev":true}}}`, name: "@s/<N>"},
		{file: "package-lock.json", eco: "npm", doc: `{"lockfileVersion":1,"dependencies":{"other":{"version":"npm:<N>@<V>"}}}`},
		{file: "package-lock.json", eco: "npm", doc: `{"lockfileVersion":1,"dependencies":{"<N>":{"version":"git+ssh://git@github.com/o/r.git#<C>"}}}`, nover: true},
		{file: "package-lock.json", eco: "npm", doc: `{"lockfileVersion":2,"packages":{"":{"name":"me"},"node_modules/<N>":{"version":"<V>"}}}`},
		{file: "package-lock.json", eco: "npm", doc: `{"lockfileVersion":3,"packages":{"":{"name":"me"},"node_modules/a/node_modules/@s/<N>":{"version":"<V>"}}}`, name: "@s/<N>"},
		{file: "package-lock.json", eco: "npm", doc: `{"lockfileVersion":3,"packages":{"":{"name":"me"},"node_modules/a":{"name":"<N>","version":"<V>"}}}`},
		{file: "package-lock.json", eco: "npm", doc: `{"lockfileVersion":3,"packages":{"":{"name":"me"},"node_modules/<N>":{"version":"<V>","resolved":"git+https://github.com/o/r.git#<C>"}}}`},
	})
}

func verifC16Text() {
	vForms([]vForm{
		{file: "pnpm-lock.yaml", eco: "npm", doc: "lockfileVersion: 5.4\npackages:\n\n  '/<N>/<V>':\n    resolution: {integrity: sha512-x}\n    dev: false\n", vers: vLower + vDigits + ".-"},
		{file: "pnpm-lock.yaml", eco: "npm", doc: "lockfileVersion: '6.0'\npackages:\n\n  '/<N>@<V>':\n    resolution: {integrity: sha512-x}\n    dev: false\n"},
		{file: "pnpm-lock.yaml", eco: "npm", doc: "lockfileVersion: '6.0'\npackages:\n\n  '/@s/<N>@<V>(@t/p@1.0.0)':\n    resolution: {integrity: sha512-x}\n", name: "@s/<N>"},
		{file: "pnpm-lock.yaml", eco: "npm", doc: "lockfileVersion: '9.0'\npackages:\n\n  '<N>@<V>':\n    resolution: {integrity: sha512-x}\n"},
		{file: "pnpm-lock.yaml", eco: "npm", doc: "lockfileVersion: '9.0'\npackages:\n\n  '@s/<N>@<V>':\n    resolution: {integrity: sha512-x}\n", name: "@s/<N>"},
		{file: "pnpm-lock.yaml", eco: "npm", doc: "lockfileVersion: 5.4\npackages:\n\n  github.com/o/r/abc:\n    resolution: {tarball: 'https://codeload.github.com/o.x/r-y/tar.gz/<C>'}\n    name: '<N>'\n    version: '<V>'\n"},
		{file: "bun.lock", eco: "npm", doc: "{\n  \"lockfileVersion\": 1,\n  \"packages\": {\n    \"k\": [\"<N>@<V>\", \"\", {}, \"sha512-x\"],\n  }\n}\n"},
		{file: "bun.lock", eco: "npm", doc: "{\n  \"lockfileVersion\": 1,\n  \"packages\": {\n    \"k\": [\"@s/<N>@<V>\", \"\", {}, \"sha512-x\"],\n  }\n}\n", name: "@s/<N>"},
		{file: "bun.lock", eco: "npm", doc: "{\n  \"lockfileVersion\": 1,\n  \"packages\": {\n    \"k\": [\"<N>@github:o/r#<C>\", {}, \"x\"],\n  }\n}\n", nover: true},
		{file: "yarn.lock", eco: "npm", doc: "# yarn lockfile v1\n\n\n<N>@^1.0:\n  version \"<V>\"\n  resolved \"https://registry.yarnpkg.com/x/-/x.tgz#0123\"\n  dependencies:\n    zz \"1.0\"\n"},
		{file: "yarn.lock", eco: "npm", doc: "# yarn lockfile v1\n\n\n\"@s/<N>@^1.0\", \"@s/<N>@~1.0\":\n  version \"<V>\"\n", name: "@s/<N>"},
		{file: "yarn.lock", eco: "npm", doc: "__metadata:\n  version: 6\n\n\"<N>@npm:^1.0\":\n  version: <V>\n  resolution: \"x@npm:1.0\"\n  languageName: node\n"},
		{file: "yarn.lock", eco: "npm", doc: "# yarn lockfile v1\n\n\n\"<N>@git+ssh://git@github.com/o/r\":\n  version \"<V>\"\n  resolved \"git+ssh://git@github.com/o/r#<C>\"\n"},
	})
}

func verifC17Text() {
	vForms([]vForm{
		{file: "poetry.lock", eco: "PyPI", doc: "[[package]]\nname = \"<N>\"\nversion = \"<V>\"\ndescription = \"d\"\n"},
		{file: "poetry.lock", eco: "PyPI", doc: "[[package]]\nname = \"<N>\"\nversion = \"<V>\"\n[package.source]\ntype = \"git\"\nresolved_reference = \"<C>\"\n"},
		{file: "pdm.lock", eco: "PyPI", doc: "[[package]]\nname = \"<N>\"\nversion = \"<V>\"\ngroups = [\"dev\"]\n"},
		{file: "pdm.lock", eco: "PyPI", doc: "[[package]]\nname = \"<N>\"\nversion = \"<V>\"\ngit = \"https://example.com\"\nrevision = \"<C>\"\n"},
		{file: "uv.lock", eco: "PyPI", doc: "version = 1\n[[package]]\nname = \"<N>\"\nversion = \"<V>\"\nsource = { registry = \"https://pypi.org/simple\" }\n"},
		{file: "uv.lock", eco: "PyPI", doc: "version = 1\n[[package]]\nname = \"<N>\"\nversion = \"<V>\"\nsource = { git = \"https://example.com/x?rev=1#<C>\" }\n"},
		{file: "pylock.toml", eco: "PyPI", doc: "lock-version = \"1.0\"\n[[packages]]\nname = \"<N>\"\nversion = \"<V>\"\n"},
		{file: "pylock.toml", eco: "PyPI", doc: "lock-version = \"1.0\"\n[[packages]]\nname = \"<N>\"\nversion = \"<V>\"\n[packages.vcs]\ntype = \"git\"\ncommit-id = \"<C>\"\n"},
		{file: "Pipfile.lock", eco: "PyPI", doc: `{"default":{"<N>":{"hashes":[],"version":"==<V>"}}}`},
		{file: "Pipfile.lock", eco: "PyPI", doc: `{"default":{},"develop":{"<N>":{"version":"==<V>","markers":"x"}}}`},
	})
}

func verifC18Text() {
	vForms([]vForm{
		{file: "requirements.txt", eco: "PyPI", doc: "<N>==<V>\n", names: vLower + vDigits},
		{file: "requirements.txt", eco: "PyPI", doc: "<N>[x,y] >= <V>, != 9.9 ; python_version < '3'\n", names: vLower + vDigits, name: "<N>"},
		{file: "requirements.txt", eco: "PyPI", doc: "a-<N> ~= <V> --hash=sha256:abc # c\n", names: vLower + vDigits, name: "a-<N>"},
	})
}

func verifC19Text() {
	vForms([]vForm{
		{file: "Cargo.lock", eco: "crates.io", doc: "version = 3\n[[package]]\nname = \"<N>\"\nversion = \"<V>\"\nsource = \"registry+https://x\"\n"},
		{file: "composer.lock", eco: "Packagist", doc: `{"packages":[{"name":"v/<N>","version":"<V>","dist":{"type":"zip","reference":"<C>"}}],"packages-dev":[]}`, name: "v/<N>"},
		{file: "composer.lock", eco: "Packagist", doc: `{"packages":[],"packages-dev":[{"name":"v/<N>","version":"<V>"}]}`, name: "v/<N>"},
		{file: "packages.lock.json", eco: "NuGet", doc: `{"version":1,"dependencies":{"net6.0":{"<N>":{"type":"Direct","resolved":"<V>"}}}}`},
		{file: "renv.lock", eco: "CRAN", doc: `{"R":{},"Packages":{"k":{"Package":"<N>","Version":"<V>","Source":"Repository","Repository":"CRAN"}}}`},
		{file: "pubspec.lock", eco: "Pub", doc: "packages:\n  \"<N>\":\n    dependency: transitive\n    description:\n      name: x\n      url: \"https://pub.dartlang.org\"\n    source: hosted\n    version: \"<V>\"\nsdks:\n  dart: \">=2.0\"\n", names: vLower + "_"},
		{file: "pubspec.lock", eco: "Pub", doc: "packages:\n  \"<N>\":\n    dependency: \"direct main\"\n    description:\n      path: \".\"\n      resolved-ref: \"<C>\"\n    source: git\n    version: \"<V>\"\n", names: vLower + "_"},
	})
}

func verifC20Text() {
	vForms([]vForm{
		{file: "Gemfile.lock", eco: "RubyGems", doc: "GEM\n  remote: https://rubygems.org/\n  specs:\n    <N> (<V>)\n      zz (>= 1.0)\n\nPLATFORMS\n  ruby\n\nDEPENDENCIES\n  <N>\n", vers: vLower + vDigits + "."},
		{file: "Gemfile.lock", eco: "RubyGems", doc: "GIT\n  remote: https://example.com/x.git\n  revision: <C>\n  branch: main\n  specs:\n    <N> (<V>)\n", vers: vLower + vDigits + "."},
		{file: "gradle.lockfile", eco: "Maven", doc: "# c\ng.h:<N>:<V>=compileClasspath,runtimeClasspath\nempty=x\n", name: "g.h:<N>"},
		{file: "buildscript-gradle.lockfile", eco: "Maven", doc: "<N>:a-b:<V>=classpath\n", name: "<N>:a-b"},
		{file: "mix.lock", eco: "Hex", doc: "%{\n  \"<N>\": {:hex, :x, \"<V>\", \"<C>\", [:mix], [], \"hexpm\", \"0\"},\n}\n", names: vLower + vDigits + "_"},
		{file: "mix.lock", eco: "Hex", doc: "%{\n  \"<N>\": {:git, \"https://example.com/x.git\", \"<C>\", []},\n}\n", nover: true, names: vLower + vDigits + "_"},
	})
}

func verifC21Text() {
	vForms([]vForm{
		{file: "go.mod", eco: "Go", doc: "module me\n\ngo 1.20\n\nrequire example.com/<N>/b v1.2.3-a<V>\n", name: "example.com/<N>/b", ver: "1.2.3-a<V>", names: vLower + vDigits, vers: vLower + vDigits},
		{file: "go.mod", eco: "Go", doc: "module me\n\ngo 1.20\n\nrequire (\n\texample.com/x v1.0.0 // indirect\n)\n\nreplace example.com/x v1.0.0 => example.org/<N>/b v0.0.0-a<V>\n", name: "example.org/<N>/b", ver: "0.0.0-a<V>", names: vLower + vDigits, vers: vLower + vDigits},
		{file: "go.mod", eco: "Go", doc: "module me\n\nrequire example.com/<N>/b v1.2.3-a<V>\n\nreplace example.com/y => example.com/z v1.0.0\n\nexclude example.com/<N>/b v1.2.4\n", name: "example.com/<N>/b", ver: "1.2.3-a<V>", names: vLower + vDigits, vers: vLower + vDigits},
	})
}

func verifC22Text() {
	vForms([]vForm{
		{file: "pom.xml", eco: "Maven", doc: "<project><dependencies><dependency><groupId>g.<N></groupId><artifactId>a-b</artifactId><version><V></version></dependency></dependencies></project>", name: "g.<N>:a-b"},
		{file: "pom.xml", eco: "Maven", doc: "<project><properties><p.x><V></p.x></properties><dependencies><dependency><groupId>g</groupId><artifactId><N></artifactId><version>${p.x}</version></dependency></dependencies></project>", name: "g:<N>"},
		{file: "pom.xml", eco: "Maven", doc: "<project><dependencyManagement><dependencies><dependency><groupId>g</groupId><artifactId><N></artifactId><version>[<V>,9)</version></dependency></dependencies></dependencyManagement></project>", name: "g:<N>"},
	})
}

func verifC23Text() {
	n, v, e, c := vLongText("name", 2, 14), vLongText("version", 0, 9), zzsym.Str("eco", 5, vNameSet+":"), zzsym.Str("cmp", 4, vNameSet)
	zzsym.PutFile("rows", e+","+c+","+n+","+v+"\n,,"+n+"x,"+v+"c\n")
	out, ps := vList("csv-file:rows")
	zzsym.Assert(out.code == 0 && len(ps) == 2, "each row is a package")
	for _, p := range ps {
		if len(p.Ecosystem) > 0 {
			zzsym.Assert(p.Name == n && p.Version == v && p.Commit == "" && p.Ecosystem == e && p.CompareAs == c, "a row gives a package with exactly the fields written")
		} else {
			zzsym.Assert(p.Name == n+"x" && p.Version == "" && p.Commit == v+"c", "a row without ecosystem gives a package with exactly the commit written")
		}
	}
	zzsym.Observe(vItoa(out.code) + vItoa(len(ps)))
}

// names, versions, commits and advisories stand in both reports as they are
func verifC13Text() {
	name := zzsym.Pick("odd", "", "100%", "%s", "a%%d")
	if name == "" {
		name = vLongText("name", 2, 12)
	}
	ver := vTextOf("ver", vDigits, vVerSet, []int{2, 7}[zzsym.Choice("v", 2)])
	if zzsym.Flag("list") {
		c := zzsym.Str("commit", 7, vDigits)
		zzsym.PutFile("poetry.lock", "[[package]]\nname = \"foo\"\nversion = \""+ver+"\"\n[package.source]\ntype = \"git\"\nresolved_reference = \""+c+"\"\n")
		out := vRun("--list-packages", "poetry.lock")
		zzsym.Assert(vHas(out.stdout+"\n", "\n  PyPI: foo@"+ver+" ("+c+")\n"), "packages are listed with their ecosystem, name, version and commit")
		zzsym.Observe(out.stdout)

		return
	}
	o := vSimple("GSD-"+vLongText("id", 3, 12), "npm", name)
	o.affected[0].ranges, o.affected[0].versions = nil, []string{ver}
	o.summary = zzsym.Pick("sum", "", "50% off %d", "about")
	if o.summary == "about" {
		o.summary = vLongText("summary", 2, 90)
	}
	o.details = "more"
	vPutDB("db", o)
	vConfig("c.yml", nil, "db")
	args := []string{"--config=c.yml", "--use-dbs=false", "csv-file:rows"}
	zzsym.PutFile("rows", "npm,,"+name+","+ver+"\n")
	text := vRun(args...)
	says := o.summary
	if says == "" {
		says = "more"
	}
	zzsym.Assert(text.code == 1, "what is vulnerable is reported")
	zzsym.Assert(vHas(text.stdout, "\n  "+name+"@"+ver+" is affected by the following vulnerabilities:\n    "+o.id+": "+says+"\n"), "the text names the package and its advisory as they are")
	_, d := vRunJSON(args...)
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 1 || len(d.Results[0].Packages[0].Vulnerabilities) != 1 {
		zzsym.Assert(false, "the package and its advisory are in the JSON")

		return
	}
	p := d.Results[0].Packages[0]
	zzsym.Assert(p.Name == name && p.Version == ver && p.Vulnerabilities[0].ID == o.id, "the JSON names the package and its advisory as they are")
	zzsym.Observe(text.stdout)
}

// however many of a package's advisories are ignored, those that are not are reported and counted
func verifC06Count() {
	var osvs []vOSV
	var args []string
	n := 1 + zzsym.Choice("n", 5)
	ign := make([]bool, n)
	for i := range n {
		osvs = append(osvs, vSimple("GHSA-"+vItoa(i), "npm", "foo"))
		if zzsym.Flag("ignored") {
			ign[i] = true
			args = append(args, "--ignore=GHSA-"+vItoa(i))
		}
	}
	osvs = append(osvs, vSimple("GHSA-x", "npm", "bar"))
	other := zzsym.Flag("other")
	if other {
		args = append(args, "--ignore=GHSA-x")
	}
	vPutDB("db", osvs...)
	vConfig("c.yml", nil, "db")
	args = append(args, "--config=c.yml", "--use-dbs=false", "--parse-as=csv-row")
	rows := []string{"npm,,foo,1.0", "npm,,bar,1.0"}
	if zzsym.Flag("alone") {
		rows = rows[:1]
	}
	left, all := 0, n
	for i := range n {
		if !ign[i] {
			left++
		}
	}
	if len(rows) > 1 {
		all++
		if !other {
			left++
		}
	}
	if zzsym.Flag("json") {
		out, d := vRunJSON(append(args, rows...)...)
		if len(d.Results) != 1 || len(d.Results[0].Packages) != len(rows) {
			zzsym.Assert(false, "every package is reported")

			return
		}
		for _, p := range d.Results[0].Packages {
			if p.Name != "foo" {
				continue
			}
			for i := range n {
				zzsym.Assert(vHasID(p.Ignored, "GHSA-"+vItoa(i)) == ign[i], "an advisory is set aside exactly when it is to be ignored")
				zzsym.Assert(vHasID(p.Vulnerabilities, "GHSA-"+vItoa(i)) == !ign[i], "an advisory is reported exactly when it is not to be ignored")
			}
		}
		zzsym.Assert(out.code == min(left, 1), "the exit code depends on the advisories left")

		return
	}
	out := vRun(append(args, rows...)...)
	for i := range n {
		zzsym.Assert(vHas(out.stdout, "GHSA-"+vItoa(i)) == !ign[i], "the text output lists exactly the advisories that are not ignored")
	}
	zzsym.Assert(out.code == min(left, 1), "the exit code depends on the advisories left")
	word := "known"
	if left < all {
		word = "new"
		zzsym.Assert(vHas(out.stdout, "("+vItoa(all-left)+" wa") || vHas(out.stdout, "("+vItoa(all-left)+" we"), "the text output counts the ignored advisories")
	}
	if left == 0 {
		zzsym.Assert(vHas(out.stdout, "no "+word+" vulnerabilities found"), "the summary says nothing was found")
	} else {
		zzsym.Assert(vHas(out.stdout, " "+vItoa(left)+" "+word+" vulnerabilit"), "the summary counts what is left")
	}
}

// packages get the advisories the API gave for them, with their own details, whatever those say of each other
func verifC08Details() {
	names := []string{"foo", "bar"}
	has := make([][]bool, 2)
	ids := []string{"GHSA-1", "GHSA-2", "CVE-1"}
	for i := range names {
		has[i] = make([]bool, 3)
		for j := range ids {
			has[i][j] = zzsym.Flag("has")
		}
	}
	rel := zzsym.Pick("relation", "aliases", "related", "upstream")
	to := make([]int, 3)
	for j := range ids {
		to[j] = zzsym.Choice("to", 3)
	}
	s := &vServer{}
	s.vulns = func(q vQuery) []string {
		var out []string
		for i, n := range names {
			if q.Package.Name != n {
				continue
			}
			for j, id := range ids {
				if has[i][j] {
					out = append(out, id)
				}
			}
		}

		return out
	}
	s.details = func(id string) string {
		for j := range ids {
			if id == ids[j] {
				return "{\"id\":\"" + id + "\",\"summary\":\"about " + id + "\",\"" + rel + "\":[\"" + ids[to[j]] + "\"]}"
			}
		}

		return "{}"
	}
	s.start()
	out, d := vRunJSON("--use-dbs=false", "--use-api", "--parse-as=csv-row", "npm,,foo,1.0", "npm,,bar,1.0")
	zzsym.Assert(out.code <= 1, "the run succeeds")
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 2 {
		zzsym.Assert(false, "every package is reported")

		return
	}
	for _, p := range d.Results[0].Packages {
		for i, n := range names {
			if p.Name != n {
				continue
			}
			want := 0
			for j, id := range ids {
				got := 0
				for _, v := range p.Vulnerabilities {
					if v.ID == id {
						got++
						zzsym.Assert(v.Summary == "about "+id, "an advisory has its own details")
					}
				}
				same := false // another of its advisories might be the same one
				for k := range ids {
					same = same || rel == "aliases" && k != j && has[i][k] && (to[j] == k || to[k] == j || to[j] == to[k])
				}
				zzsym.Assert(got <= 1 && (got == 0 || has[i][j]) && (got == 1 || !has[i][j] || same), "a package gets exactly the advisories the API gave for it")
				want += got
			}
			zzsym.Assert(len(p.Vulnerabilities) == want, "nothing else is reported")
		}
	}
}

// the ecosystems of a lockfile's packages decide which default databases are used, and the config beside it which others
func verifC26Mixed() {
	ecos := []string{"npm", "crates.io", "PyPI"}
	rows := ""
	has := make([]bool, 3)
	order := zzsym.Choice("first", 3)
	for k := range ecos {
		i := (k + order) % 3
		if zzsym.Flag("has") {
			has[i] = true
			rows += ecos[i] + ",,foo,1.0\n"
		}
	}
	api, dbs := zzsym.Flag("api"), zzsym.Flag("dbs")
	zips := make([]string, 3)
	for i, e := range ecos {
		zips[i] = zzsym.MakeZip([]zzsym.ZipEntry{{Name: "a.json", Data: vSimple("V-"+e, e, "foo").vJSON()}})
	}
	asked := make([]int, 3)
	s := &vServer{vulns: func(q vQuery) []string { return []string{"V-api"} }}
	s.details = func(id string) string { return "{\"id\":\"" + id + "\"}" }
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		for i, e := range ecos {
			if r.URL == "https://osv-vulnerabilities.storage.googleapis.com/"+e+"/all.zip" {
				asked[i]++

				return zzsym.Resp{Status: 200, Body: zips[i]}
			}
		}

		return s.answer(r)
	})
	vPutDB("here", vSimple("V-here", "npm", "foo"))
	path := "d/rows"
	extra := false
	switch zzsym.Choice("config", 5) {
	case 0:
		zzsym.PutFile("d/rows", rows)
	case 1:
		zzsym.PutFile("d/rows", rows)
		vConfig("d/.osv-detector.yml", nil, "here")
		extra = true
	case 2: // beside what the path links to
		zzsym.PutFile("real/rows", rows)
		vConfig("real/.osv-detector.yml", nil, "here")
		zzsym.PutDir("d")
		zzsym.PutLink("../real/rows", "d/rows")
	case 3: // beside the link
		zzsym.PutFile("real/rows", rows)
		vConfig("d/.osv-detector.yml", nil, "here")
		zzsym.PutLink("../real/rows", "d/rows")
		extra = true
	case 4: // above
		zzsym.PutFile("d/rows", rows)
		vConfig(".osv-detector.yml", nil, "here")
	}
	args := []string{}
	if api {
		args = append(args, "--use-api")
	}
	if !dbs {
		args = append(args, "--use-dbs=false")
	}
	_, d := vRunJSON(append(args, "csv-file:"+path)...)
	n := 0
	for i := range ecos {
		want := 0
		if has[i] {
			n++
		}
		if has[i] && dbs {
			want = 1
		}
		zzsym.Assert(asked[i] == want, "the database of an ecosystem is loaded once when a package is of it, else not at all")
	}
	zzsym.Assert((len(s.batches) > 0) == (api && n > 0), "the API is asked when told to")
	if len(d.Results) != 1 || len(d.Results[0].Packages) != n {
		zzsym.Assert(false, "every package is reported")

		return
	}
	for _, p := range d.Results[0].Packages {
		vs := p.Vulnerabilities
		zzsym.Assert(vHasID(vs, "V-"+p.Ecosystem) == dbs, "a package is checked against the database of its ecosystem")
		zzsym.Assert(vHasID(vs, "V-api") == api, "a package is checked against the API when told to")
		zzsym.Assert(vHasID(vs, "V-here") == (extra && p.Ecosystem == "npm"), "a package is checked against the databases of the config beside its lockfile")
	}
	zzsym.Observe(vShow(d))
}

// packages of the same name and version in different ecosystems are different packages
func verifC13Same() {
	ecos := []string{"npm", "crates.io", "PyPI"}
	var osvs []vOSV
	rows := ""
	n := 0
	total := 0
	for i, e := range ecos {
		rows += e + ",,foo,1.0\n"
		if zzsym.Flag("vulnerable") {
			n++
			for j := range 1 + zzsym.Choice("more", 2) {
				o := vSimple("V-"+vItoa(i)+vItoa(j), e, "foo")
				o.summary = "same"
				osvs = append(osvs, o)
				total++
			}
		}
	}
	vPutDB("db", osvs...)
	vConfig("c.yml", nil, "db")
	zzsym.PutFile("rows", rows)
	args := []string{"--config=c.yml", "--use-dbs=false", "csv-file:rows"}
	text := vRun(args...)
	zzsym.Assert(text.code == min(n, 1), "what is vulnerable is reported")
	zzsym.Assert(vCount(text.stdout, "foo@1.0 is affected by the following vulnerabilities:") == n, "the text names every vulnerable package")
	for _, o := range osvs {
		zzsym.Assert(vCount(text.stdout, "    "+o.id+": same\n") == 1, "the text names every advisory")
	}
	_, d := vRunJSON(args...)
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 3 {
		zzsym.Assert(false, "every package is in the JSON")

		return
	}
	got := 0
	for i, e := range ecos {
		for _, p := range d.Results[0].Packages {
			if p.Ecosystem != e {
				continue
			}
			for _, v := range p.Vulnerabilities {
				got++
				zzsym.Assert(strings.HasPrefix(v.ID, "V-"+vItoa(i)), "a package has its own advisories")
			}
		}
	}
	zzsym.Assert(got == total, "every advisory is in the JSON")
	zzsym.Observe(text.stdout)
}
