package main

import (
	"encoding/json"
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC24Shape", verifC24Shape)
var _ = zzsym.Reg("verifC24Text", verifC24Text)
var _ = zzsym.Reg("verifC24Row", verifC24Row)
var _ = zzsym.Reg("verifC24Compare", verifC24Compare)

// vSurvives lists a lockfile of any content next to a good one: the run must end with a report or an error.
func vSurvives(path, doc string) {
	zzsym.PutFile("bad/"+path, doc)
	zzsym.PutFile("good/Cargo.lock", vCargoFoo)
	out := vRun("--json", "--list-packages", "bad/"+path, "good/Cargo.lock")
	var d vDoc
	err := json.Unmarshal([]byte(out.stdout), &d)
	zzsym.Assert(err == nil, "with --json the standard output is one JSON document")
	zzsym.Assert(out.code == 0 || out.code == 127, "whatever a lockfile holds, the run ends with a report or an error")
	n := 2
	if out.code == 127 {
		n = 1
		zzsym.Assert(vHas(out.stderr, "bad/"+path), "a lockfile that cannot be read is named")
	}
	if len(d.Results) != n {
		zzsym.Assert(false, "a lockfile is reported unless it cannot be read")

		return
	}
	last := d.Results[n-1]
	zzsym.Assert(last.FilePath == "good/Cargo.lock" && len(last.Packages) == 1, "a bad lockfile does not affect the others")
	zzsym.Observe(vItoa(out.code))
}

// documents of the right syntax with something unexpected in one place
func verifC24Shape() {
	type shape struct {
		file  string
		texts []string
	}
	json := []string{"null", "true", "0", "\"\"", "\"x\"", "[]", "{}", "[null]", "[\"\"]", ""}
	yaml := []string{"null", "true", "0", "''", "x", "[]", "{}", "[null]", "~"}
	toml := []string{"true", "0", "''", "'x'", "[]", "{}", "[{}]", "['']"}
	shapes := []shape{
		{"package-lock.json", []string{"%", "{\"dependencies\":%}", "{\"dependencies\":{\"a\":%}}", "{\"dependencies\":{\"a\":{\"version\":%}}}", "{\"dependencies\":{\"a\":{\"version\":\"1.0\",\"dependencies\":%}}}", "{\"packages\":%}", "{\"packages\":{\"a\":%}}", "{\"packages\":{\"a\":{\"version\":%}}}", "{\"packages\":{\"a\":{\"resolved\":%}}}"}},
		{"composer.lock", []string{"%", "{\"packages\":%}", "{\"packages\":[%]}", "{\"packages\":[{\"version\":%}]}", "{\"packages\":[{\"dist\":%}]}", "{\"packages-dev\":%}"}},
		{"packages.lock.json", []string{"%", "{\"version\":%}", "{\"version\":1,\"dependencies\":%}", "{\"version\":1,\"dependencies\":{\"net\":%}}", "{\"version\":1,\"dependencies\":{\"net\":{\"a\":%}}}", "{\"version\":1,\"dependencies\":{\"net\":{\"a\":{\"resolved\":%}}}}"}},
		{"Pipfile.lock", []string{"%", "{\"default\":%}", "{\"default\":{\"a\":%}}", "{\"default\":{\"a\":{\"version\":%}}}", "{\"develop\":{\"a\":{\"version\":%}}}"}},
		{"renv.lock", []string{"%", "{\"Packages\":%}", "{\"Packages\":{\"a\":%}}", "{\"Packages\":{\"a\":{\"Package\":%}}}", "{\"Packages\":{\"a\":{\"Source\":\"Repository\",\"Repository\":%}}}"}},
		{"bun.lock", []string{"%", "{\"packages\":%}", "{\"packages\":{\"a\":%}}", "{\"packages\":{\"a\":[%]}}", "{\"packages\":{\"a\":[\"a@1.0\",%]}}"}},
		{"pnpm-lock.yaml", []string{"%\n", "lockfileVersion: %\n", "lockfileVersion: 5.4\npackages: %\n", "lockfileVersion: 5.4\npackages:\n  /a/1.0: %\n", "lockfileVersion: 5.4\npackages:\n  /a/1.0:\n    resolution: %\n", "lockfileVersion: 5.4\npackages:\n  /a/1.0:\n    name: %\n"}},
		{"pubspec.lock", []string{"%\n", "packages: %\n", "packages:\n  a: %\n", "packages:\n  a:\n    version: %\n", "packages:\n  a:\n    description: %\n", "packages:\n  a:\n    description:\n      resolved-ref: %\n"}},
		{"Cargo.lock", []string{"%\n", "package = %\n", "[[package]]\nname = %\n", "[[package]]\nname = 'a'\nversion = %\n", "[package]\nname = %\n"}},
		{"poetry.lock", []string{"package = %\n", "[[package]]\nname = %\n", "[[package]]\nname = 'a'\nsource = %\n"}},
		{"pdm.lock", []string{"package = %\n", "[[package]]\nname = 'a'\nrevision = %\n"}},
		{"uv.lock", []string{"version = %\n", "package = %\n", "[[package]]\nname = 'a'\nsource = %\n", "[[package]]\nname = 'a'\nsource = { git = % }\n"}},
		{"pylock.toml", []string{"packages = %\n", "[[packages]]\nname = 'a'\nvcs = %\n", "[[packages]]\nname = 'a'\nversion = %\n"}},
		{"pom.xml", []string{"%", "<project>%</project>", "<project><properties>%</properties></project>", "<project><properties><a>%</a></properties></project>", "<project><dependencies>%</dependencies></project>", "<project><dependencies><dependency>%</dependency></dependencies></project>", "<project><dependencies><dependency><version>%</version></dependency></dependencies></project>"}},
	}
	s := shapes[zzsym.Choice("file", len(shapes))]
	odd := json
	switch {
	case strings.HasSuffix(s.file, ".yaml") || s.file == "pubspec.lock":
		odd = yaml
	case strings.HasSuffix(s.texts[0], "\n") || s.file == "Cargo.lock":
		odd = toml
	case s.file == "pom.xml":
		odd = []string{"", "x", "<a/>", "<a>", "</a>", "<dependency/>", "<version/>", "${", "${}", "<properties/>", "<!-- -->"}
	}
	text := s.texts[zzsym.Choice("shape", len(s.texts))]
	vSurvives(s.file, strings.ReplaceAll(text, "%", odd[zzsym.Choice("odd", len(odd))]))
}

// arbitrary text where names, versions and keys are taken apart
func verifC24Text() {
	n := 3 + zzsym.Tier()
	switch zzsym.Choice("file", 14) {
	case 0:
		vSurvives("Pipfile.lock", "{\""+zzsym.Pick("group", "default", "develop")+"\":{\"a\":{\"version\":\""+zzsym.StrUpTo("s", 0, n, "=<1*")+"\"}}}")
	case 1:
		vSurvives("package-lock.json", "{\"dependencies\":{\"a\":{\"version\":\""+zzsym.Pick("pre", "npm:", "", "git+ssh://", "github:", "file:")+zzsym.StrUpTo("s", 0, n, "@/#1")+"\"}}}")
	case 2:
		vSurvives("package-lock.json", "{\"packages\":{\""+zzsym.StrUpTo("s", 0, n, "@/a.")+"\":{\"version\":\"1.0\",\"resolved\":\""+zzsym.StrUpTo("r", 0, 2, ":#%?")+"\"}}}")
	case 3:
		vSurvives("bun.lock", "{\"packages\":{\"a\":[\""+zzsym.StrUpTo("s", 0, n, "@#:a")+"\"]}}")
	case 4:
		vSurvives("pnpm-lock.yaml", "lockfileVersion: "+zzsym.Pick("v", "5.4", "'6.0'", "'9.0'")+"\npackages:\n  \""+zzsym.StrUpTo("s", 0, n, "/@a(_1")+"\":\n    dev: true\n")
	case 5:
		vSurvives("yarn.lock", zzsym.Pick("head", "", "\"", "a@npm:", "@")+zzsym.StrUpTo("s", 0, n, "@,\":")+"\n  version "+zzsym.StrUpTo("v", 0, 1, "\"1 ")+"\n")
	case 6:
		vSurvives("Gemfile.lock", "GEM\n"+zzsym.StrUpTo("s", 0, n+1, " (a)-")+"\n  specs:\n    "+zzsym.StrUpTo("t", 0, 2, " (a)!")+"\n")
	case 7:
		vSurvives("requirements.txt", zzsym.StrUpTo("s", 0, n+1, "a=<[;#\\-")+"\n")
	case 8:
		vSurvives("mix.lock", "%{\n  \""+zzsym.StrUpTo("s", 0, 1, "a\"")+"\": {"+zzsym.Pick("some", "", ":hex,", ":hex, :a, ", ":git, \"u\", \"c\"")+zzsym.StrUpTo("t", 0, n, ",:\"a")+",\n}\n")
	case 9:
		vSurvives("gradle.lockfile", zzsym.StrUpTo("s", 0, n+1, ":=#a ")+"\n")
	case 10:
		vSurvives("go.mod", "module m\n"+zzsym.Pick("kw", "require ", "replace a ", "")+zzsym.StrUpTo("s", 0, n, "av1(=>")+"\n")
	case 11:
		vSurvives("pom.xml", "<project><properties><a>1</a></properties><dependencies><dependency><version>"+zzsym.StrUpTo("s", 0, n+1, "${a}[,")+"</version></dependency></dependencies></project>")
	case 12:
		vSurvives("uv.lock", "[[package]]\nname = \"a\"\nversion = \"1.0\"\nsource = { git = \""+zzsym.StrUpTo("s", 0, n, "#:/a%")+"\" }\n")
	case 13:
		vSurvives("package-lock.json", zzsym.StrUpTo("s", 0, 2, "{}[]n\""))
	}
}

// arbitrary rows
func verifC24Row() {
	row := zzsym.StrUpTo("s", 0, 4+zzsym.Tier(), "a,\"")
	vPutDB("db", vSimple("A-1", "a", "a"))
	vConfig("c.yml", nil, "db")
	out := vRun("--json", "--config=c.yml", "--use-dbs=false", "--parse-as=csv-row", row)
	var d vDoc
	zzsym.Assert(json.Unmarshal([]byte(out.stdout), &d) == nil, "with --json the standard output is one JSON document")
	zzsym.Assert(out.code == 0 || out.code == 1 || out.code == 127, "whatever a row holds, the run ends with a report or an error")
	zzsym.Observe(vItoa(out.code))
}

// versions that cannot be compared are not taken to be safe
func verifC24Compare() {
	eco := zzsym.Pick("eco", "acme", "CRAN", "Debian", "Hackage", "Alpine", "npm", "Red Hat", "PyPI", "Maven")
	ver := zzsym.Pick("ver", "", "1.5", "x", "1.5-b", "a:1", "-", "1..2", ":")
	lo := zzsym.Pick("lo", "1.0", "x", "a:1", "0", "-")
	vPutDB("db", vOSV{id: "A-1", affected: []vAff{{eco: eco, name: "foo", ranges: []vRange{{zzsym.Pick("type", "ECOSYSTEM", "SEMVER"), []vEvent{{"introduced", lo}, {"fixed", "2.0"}}}}}}})
	vConfig("c.yml", nil, "db")
	out, d := vRunJSON("--config=c.yml", "--use-dbs=false", "--parse-as=csv-row", eco+",,foo,"+ver)
	zzsym.Assert(out.code == 0 || out.code == 1, "whatever the versions are, the run ends with a report")
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 1 {
		zzsym.Assert(false, "the package is reported")

		return
	}
	n := len(d.Results[0].Packages[0].Vulnerabilities)
	zzsym.Assert((n > 0) == (out.code == 1), "findings decide the exit code")
	if ver == "" || eco == "acme" {
		zzsym.Assert(n == 1, "a package whose version is unknown or cannot be compared is reported")
	}
	zzsym.Observe(vItoa(out.code))
}
