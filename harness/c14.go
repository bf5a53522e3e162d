package main

import (
	"sort"
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC14Paths", verifC14Paths)
var _ = zzsym.Reg("verifC14Names", verifC14Names)
var _ = zzsym.Reg("verifC14Dir", verifC14Dir)
var _ = zzsym.Reg("verifC14Near", verifC14Near)
var _ = zzsym.Reg("verifC14Ecosystems", verifC14Ecosystems)

// which files are read, and as what
func verifC14Paths() {
	const req = "foo==1.0\n"
	global := zzsym.Pick("global", "", "requirements.txt", "csv-file")
	var args []string
	if global != "" {
		args = append(args, "--parse-as="+global)
	}
	type want struct{ path, as string }
	var ws []want
	bad := false
	file := func(p, as string) {
		if as == "" {
			as = global
		}
		ws = append(ws, want{p, as})
	}
	content := func(as string) string {
		if as == "" {
			as = global
		}
		if as == "csv-file" {
			return "PyPI,,foo,1.0\n"
		}

		return req
	}
	for i := range 1 + zzsym.Choice("paths", 2+zzsym.Tier()) {
		d := "d" + vItoa(i)
		p := d + "/requirements.txt"
		odd := d + "/" + zzsym.Str("odd", 1, "az_-.~#@+") + ".dev"
		switch zzsym.Choice("kind", 10) {
		case 0: // a file of a known name
			zzsym.PutFile(p, content(""))
			args = append(args, p)
			as := global
			if as == "" {
				as = "requirements.txt"
			}
			file(p, as)
		case 1: // the same, written less simply
			zzsym.PutFile(p, content(""))
			args = append(args, "./"+d+"//../"+d+"/requirements.txt")
			as := global
			if as == "" {
				as = "requirements.txt"
			}
			file(p, as)
		case 2: // a file of any name
			zzsym.PutFile(odd, content(""))
			args = append(args, odd)
			if global == "" {
				bad = true
			} else {
				file(odd, "")
			}
		case 3: // what it is said with the path
			zzsym.PutFile(odd, req)
			args = append(args, "requirements.txt:"+odd)
			file(odd, "requirements.txt")
		case 4:
			zzsym.PutFile(odd, "PyPI,,foo,1.0\n")
			args = append(args, "csv-file:"+odd)
			file(odd, "csv-file")
		case 5: // a path with a colon
			q := d + ":x/requirements.txt"
			zzsym.PutFile(q, content(""))
			args = append(args, ":"+q)
			as := global
			if as == "" {
				as = "requirements.txt"
			}
			file(q, as)
		case 6: // with a parser for it
			q := d + ":requirements.txt"
			if zzsym.Flag("twice") {
				q = "requirements.txt:" + d + "/" + zzsym.Pick("rest", "f", "csv-file:f")
			}
			zzsym.PutFile(q, req)
			args = append(args, "requirements.txt:"+q)
			file(q, "requirements.txt")
		case 7: // a directory
			zzsym.PutFile(p, content(""))
			zzsym.PutFile(odd, content(""))
			zzsym.PutFile(d+"/sub/requirements.txt", content(""))
			zzsym.PutDir(d + "/Cargo.lock")
			args = append(args, d)
			if global == "" {
				file(p, "requirements.txt")
			} else {
				qs := []string{p, odd}
				sort.Strings(qs)
				file(qs[0], "")
				file(qs[1], "")
			}
		case 8: // a directory to be read in one way
			zzsym.PutFile(odd, req)
			args = append(args, "requirements.txt:"+d)
			file(odd, "requirements.txt")
		case 9: // a parser that does not exist
			zzsym.PutFile(p, req)
			args = append(args, zzsym.Pick("nope", "nope", "Requirements.txt", " requirements.txt")+":"+p)
			bad = true
		}
	}
	out, d := vRunJSON(append([]string{"--list-packages"}, args...)...)
	if bad {
		zzsym.Assert(out.code == 127, "a file that cannot be read as anything is an error")
	} else {
		zzsym.Assert(out.code == 0, "files that can be read are")
	}
	if len(d.Results) != len(ws) {
		zzsym.Assert(false, "exactly the files asked for are read")

		return
	}
	for i, w := range ws {
		r := d.Results[i]
		zzsym.Assert(r.FilePath == w.path, "files are reported by their path, in the order given and sorted within directories")
		zzsym.Assert(r.ParsedAs == w.as, "files are read as what their path says, else what the flag says, else what they are called")
		zzsym.Assert(len(r.Packages) == 1 && r.Packages[0].Name == "foo", "their packages are found")
	}
	zzsym.Observe(vShow(d))
}

// a minimal lockfile of each kind, with the package foo at 1.0.0
type vKind struct{ file, eco, name, doc string }

func vKinds() []vKind {
	return []vKind{
		{"bun.lock", "npm", "foo", "{\"lockfileVersion\":1,\"packages\":{\"foo\":[\"foo@1.0.0\",\"\",{},\"x\"]}}"},
		{"Cargo.lock", "crates.io", "foo", "[[package]]\nname = \"foo\"\nversion = \"1.0.0\"\n"},
		{"composer.lock", "Packagist", "foo/foo", "{\"packages\":[{\"name\":\"foo/foo\",\"version\":\"1.0.0\"}]}"},
		{"Gemfile.lock", "RubyGems", "foo", "GEM\n  remote: https://rubygems.org/\n  specs:\n    foo (1.0.0)\n"},
		{"go.mod", "Go", "x.y/foo", "module m\n\nrequire x.y/foo v1.0.0\n"},
		{"mix.lock", "Hex", "foo", "%{\n  \"foo\": {:hex, :foo, \"1.0.0\", \"ab\", [:mix], [], \"hexpm\", \"cd\"},\n}\n"},
		{"package-lock.json", "npm", "foo", "{\"lockfileVersion\":2,\"packages\":{\"node_modules/foo\":{\"version\":\"1.0.0\"}}}"},
		{"packages.lock.json", "NuGet", "foo", "{\"version\":1,\"dependencies\":{\"net6.0\":{\"foo\":{\"resolved\":\"1.0.0\"}}}}"},
		{"pdm.lock", "PyPI", "foo", "[[package]]\nname = \"foo\"\nversion = \"1.0.0\"\n"},
		{"pnpm-lock.yaml", "npm", "foo", "lockfileVersion: 5.4\npackages:\n  /foo/1.0.0:\n    dev: false\n"},
		{"poetry.lock", "PyPI", "foo", "[[package]]\nname = \"foo\"\nversion = \"1.0.0\"\n"},
		{"pylock.toml", "PyPI", "foo", "lock-version = \"1.0\"\n[[packages]]\nname = \"foo\"\nversion = \"1.0.0\"\n"},
		{"Pipfile.lock", "PyPI", "foo", "{\"default\":{\"foo\":{\"version\":\"==1.0.0\"}}}"},
		{"pom.xml", "Maven", "g:foo", "<project><dependencies><dependency><groupId>g</groupId><artifactId>foo</artifactId><version>1.0.0</version></dependency></dependencies></project>"},
		{"pubspec.lock", "Pub", "foo", "packages:\n  foo:\n    version: \"1.0.0\"\n"},
		{"renv.lock", "CRAN", "foo", "{\"Packages\":{\"foo\":{\"Package\":\"foo\",\"Version\":\"1.0.0\"}}}"},
		{"requirements.txt", "PyPI", "foo", "foo==1.0.0\n"},
		{"yarn.lock", "npm", "foo", "# yarn lockfile v1\n\n\nfoo@^1.0.0:\n  version \"1.0.0\"\n"},
		{"uv.lock", "PyPI", "foo", "version = 1\n[[package]]\nname = \"foo\"\nversion = \"1.0.0\"\nsource = { registry = \"https://pypi.org/simple\" }\n"},
		{"gradle.lockfile", "Maven", "g:foo", "g:foo:1.0.0=compileClasspath\n"},
		{"buildscript-gradle.lockfile", "Maven", "g:foo", "g:foo:1.0.0=classpath\n"},
	}
}

// every kind of lockfile is known by its name alone and checked against its own ecosystem
func verifC14Names() {
	ks := vKinds()
	k := ks[zzsym.Choice("kind", len(ks))]
	path := zzsym.Pick("dir", "", "a/", "a.b/c d/") + k.file
	var args []string
	how := zzsym.Choice("how", 4)
	switch how {
	case 0:
		args = []string{path}
	case 1:
		path = "p/odd"
		args = []string{k.file + ":" + path}
	case 2:
		path = "p/odd"
		args = []string{"--parse-as=" + k.file, path}
	case 3:
		path = "q/" + k.file
		args = []string{"q"}
	}
	zzsym.PutFile(path, k.doc)
	fix := vVersion("fix", false)
	osv := vOSV{id: "V-1", affected: []vAff{{eco: k.eco, name: k.name, ranges: []vRange{{"ECOSYSTEM", []vEvent{{"introduced", "0"}, {"fixed", fix.s}}}}}}}
	other := vSimple("V-2", "Bitnami", k.name)
	asked := 0
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		asked++
		if r.URL != "https://osv-vulnerabilities.storage.googleapis.com/"+k.eco+"/all.zip" {
			return zzsym.Resp{Status: 404}
		}

		return zzsym.Resp{Status: 200, Body: zzsym.MakeZip([]zzsym.ZipEntry{{Name: "V-1.json", Data: osv.vJSON()}, {Name: "V-2.json", Data: other.vJSON()}})}
	})
	out, d := vRunJSON(args...)
	zzsym.Assert(asked == 1, "one database is fetched for one ecosystem")
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 1 {
		zzsym.Assert(false, "the lockfile is recognised and its package found")

		return
	}
	r := d.Results[0]
	p := r.Packages[0]
	zzsym.Assert(r.FilePath == path && r.ParsedAs == k.file, "the lockfile is reported by its path and kind")
	zzsym.Assert(p.Name == k.name && p.Version == "1.0.0" && p.Ecosystem == k.eco, "its package is found")
	hit := fix.n > 1000
	zzsym.Assert((len(p.Vulnerabilities) == 1 && p.Vulnerabilities[0].ID == "V-1") == hit && (len(p.Vulnerabilities) == 0) == !hit, "it is checked against the advisories of its ecosystem by the rules of its ecosystem")
	if hit {
		zzsym.Assert(out.code == 1, "findings give 1")
	} else {
		zzsym.Assert(out.code == 0, "no findings give 0")
	}
	zzsym.Observe(vShow(d))
}

// the lockfiles of a directory
func verifC14Dir() {
	names := []string{"Cargo.lock", "cargo.lock", "Cargo.lock.bak", "go.mod", "go.sum", "pom.xml", "requirements-dev.txt", "uv.lock", ".osv-detector.yml"}
	if zzsym.Tier() == 0 {
		names = []string{"Cargo.lock", "cargo.lock", "go.mod", "go.sum", "requirements-dev.txt", "uv.lock"}
	}
	docs := map[string]string{"go.mod": "module m\n", "pom.xml": "<project></project>", "uv.lock": "version = 1\n", ".osv-detector.yml": "ignore: []\n"}
	var want []string
	for _, n := range names {
		switch zzsym.Choice("entry", 3) {
		case 0:
			zzsym.PutFile("d/"+n, docs[n])
			switch n {
			case "Cargo.lock", "go.mod", "pom.xml", "uv.lock":
				want = append(want, "d/"+n)
			}
		case 1:
			zzsym.PutFile("d/"+n+"/Cargo.lock", "")
		}
	}
	zzsym.PutDir("d")
	out, d := vRunJSON("--list-packages", zzsym.Pick("path", "d", "d/", "./d", "d/."))
	if len(want) == 0 {
		zzsym.Assert(out.code == 128, "a directory without lockfiles gives 128")
	} else {
		zzsym.Assert(out.code == 0, "lockfiles that can be read are")
	}
	if len(d.Results) != len(want) {
		zzsym.Assert(false, "exactly the lockfiles of the directory itself are read")

		return
	}
	for i, w := range want {
		zzsym.Assert(d.Results[i].FilePath == w, "lockfiles are read in order of their names")
	}
	zzsym.Observe(vItoa(out.code))
}

// names that are almost those of lockfiles
func verifC14Near() {
	ks := vKinds()
	k := ks[zzsym.Choice("kind", len(ks))]
	near := k.file
	dot := strings.LastIndex(near, ".")
	switch zzsym.Choice("how", 10) {
	case 0:
		near = strings.ToUpper(near)
	case 1:
		near = strings.ToLower(near)
	case 2:
		near = strings.ToUpper(near[:1]) + near[1:]
	case 3:
		near = near[:dot] + strings.ToUpper(near[dot:])
	case 4:
		near = zzsym.Str("pre", 1, "a. -_C") + near
	case 5:
		near += zzsym.Pick("post", "~", ".bak", " ", ".lock", ".json", "x")
	case 6:
		near = near[:dot]
	case 7:
		near = near[:dot] + near[dot+1:]
	case 8: // one other letter somewhere
		c := zzsym.Byte("c")
		zzsym.Assume(zzsym.And(c >= ' ', zzsym.And(c < 127, zzsym.And(c != '/', c != ':'))))
		i := zzsym.Choice("at", len(near))
		near = near[:i] + string([]byte{c}) + near[i+1:]
	case 9:
		near = near[dot:]
	}
	known := false
	for _, o := range ks {
		known = zzsym.Or(known, o.file == near)
	}
	zzsym.Assume(!known)
	zzsym.PutFile("d/"+near, k.doc)
	alone := zzsym.Flag("alone")
	if !alone {
		zzsym.PutFile("d/"+k.file, k.doc)
	}
	if zzsym.Flag("given") {
		out, d := vRunJSON("--list-packages", "d/"+near)
		zzsym.Assert(out.code == 127 && len(d.Results) == 0, "a file that is none of the known ones is an error")
		zzsym.Assert(vHas(out.stderr, "d/"+near), "and named")

		return
	}
	out, d := vRunJSON("--list-packages", "d")
	if alone {
		zzsym.Assert(out.code == 128 && len(d.Results) == 0, "a directory without lockfiles gives 128")

		return
	}
	zzsym.Assert(out.code == 0, "lockfiles that can be read are")
	zzsym.Assert(len(d.Results) == 1 && d.Results[0].FilePath == "d/"+k.file, "exactly the lockfiles of the directory itself are read")
}

// every ecosystem of a lockfile is checked against its own database
func verifC14Ecosystems() {
	ecos := []string{"npm", "PyPI", "crates.io", "Alpine:v3.18", "acme"}
	n := 1 + zzsym.Choice("rows", 3+zzsym.Tier())
	seen := map[string]int{}
	var rows []string
	for i := range n {
		e := ecos[zzsym.Choice("eco", len(ecos))]
		rows = append(rows, e+",npm,p"+vItoa(i)+",1.0")
		seen[e] = 0
	}
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		for _, e := range ecos {
			if r.URL == "https://osv-vulnerabilities.storage.googleapis.com/"+e+"/all.zip" {
				seen[e]++
				var es []zzsym.ZipEntry
				for i := range n {
					es = append(es, zzsym.ZipEntry{Name: vItoa(i) + ".json", Data: vSimple("V-"+e+"-"+vItoa(i), e, "p"+vItoa(i)).vJSON()})
				}

				return zzsym.Resp{Status: 200, Body: zzsym.MakeZip(es)}
			}
		}

		return zzsym.Resp{Status: 404}
	})
	args := append([]string{"--parse-as=csv-row"}, rows...)
	split := zzsym.Flag("split")
	if split { // one file per row
		args = nil
		for i, r := range rows {
			zzsym.PutFile("f"+vItoa(i), r)
			args = append(args, "csv-file:f"+vItoa(i))
		}
	}
	out, d := vRunJSON(args...)
	zzsym.Assert(out.code == 1, "findings give 1")
	for _, e := range ecos {
		c, ok := seen[e]
		zzsym.Assert(ok == (c == 1) && c <= 1, "the database of each ecosystem in use is loaded, once, and no other")
	}
	total := 0
	for _, f := range d.Results {
		for _, p := range f.Packages {
			total++
			zzsym.Assert(vIDs(p.Vulnerabilities) == "V-"+p.Ecosystem+"-"+p.Name[1:], "each package is checked against the advisories of its ecosystem")
		}
	}
	zzsym.Assert(total == n, "every package is reported")
	zzsym.Observe(vShow(d))
}
