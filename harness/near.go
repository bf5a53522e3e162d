package main

import (
	"encoding/json"
	"strings"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/zzsym"
	"github.com/g-rath/osv-detector/pkg/database"
)

var _ = zzsym.Reg("verifC01List", verifC01List)
var _ = zzsym.Reg("verifC02Case", verifC02Case)
var _ = zzsym.Reg("verifC03Shape", verifC03Shape)
var _ = zzsym.Reg("verifC04Bare", verifC04Bare)
var _ = zzsym.Reg("verifC05Near", verifC05Near)
var _ = zzsym.Reg("verifC07Mixed", verifC07Mixed)
var _ = zzsym.Reg("verifC10Exact", verifC10Exact)
var _ = zzsym.Reg("verifC02Long", verifC02Long)
var _ = zzsym.Reg("verifC03Long", verifC03Long)
var _ = zzsym.Reg("verifC04Long", verifC04Long)
var _ = zzsym.Reg("verifC11Hosts", verifC11Hosts)
var _ = zzsym.Reg("verifC13Keys", verifC13Keys)
var _ = zzsym.Reg("verifC14Links", verifC14Links)
var _ = zzsym.Reg("verifC15Paths", verifC15Paths)
var _ = zzsym.Reg("verifC18Words", verifC18Words)
var _ = zzsym.Reg("verifC21Near", verifC21Near)
var _ = zzsym.Reg("verifC29Links", verifC29Links)

// listed versions are compared as they are written
func verifC01List() {
	near := []string{"1.0.0", "v1.0.0", "1.0", "1.0.0 ", "1.0.0+x", "1.0.0-RC", "1.0.0-rc", "01.0.0", "=1.0.0"}
	v := append(near, "")[zzsym.Choice("v", len(near)+1)]
	l := near[zzsym.Choice("l", len(near))]
	vs := []string{l}
	switch zzsym.Choice("more", 3) {
	case 1:
		vs = []string{"0.9." + zzsym.Str("d", 1, "0123456789"), l}
	case 2:
		vs = []string{l, "9.9"}
	}
	aff := vAff{eco: "npm", name: "foo", versions: vs}
	if zzsym.Flag("range") { // one that does not reach it
		aff.ranges = []vRange{{"SEMVER", []vEvent{{"introduced", "5.0.0"}, {"fixed", "6.0.0"}}}}
	}
	db := vDirDB(nil, vOSV{id: "OSV-1", affected: []vAff{aff}})
	res := vCheck(db, internal.PackageDetails{Name: "foo", Version: v, Ecosystem: "npm", CompareAs: "npm"})
	zzsym.Assert((len(res[0]) == 1) == (l == v || v == ""), "a version listed by an advisory is affected, one that is not listed and not in a range is not")
	zzsym.Observe(vItoa(len(res[0])))
}

// ecosystems are compared exactly, in the database and by the advisory itself
func verifC02Case() {
	a := zzsym.Str("a", 1, "nN") + "p" + zzsym.Str("b", 1, "mM")
	p := zzsym.Pick("p", "npm", "NPM", "Npm")
	as, ps := "", ""
	if zzsym.Flag("as") {
		as = ":" + zzsym.Str("asuf", 1, "1vV")
	}
	if zzsym.Flag("ps") {
		ps = ":" + zzsym.Str("psuf", 1, "1vV")
	}
	o := vSimple("OSV-1", a+as, "foo")
	pkg := internal.PackageDetails{Name: "foo", Version: "1.0", Ecosystem: internal.Ecosystem(p + ps), CompareAs: "npm"}
	want := zzsym.And(a == p, zzsym.Or(as == "" || ps == "", as == ps))
	res := vCheck(vDirDB(nil, o), pkg)
	zzsym.Assert((len(res[0]) == 1) == want, "an advisory applies exactly when the ecosystems agree (releases only when both name one) and the name is the same")
	var osv database.OSV
	zzsym.Assert(json.Unmarshal([]byte(o.vJSON()), &osv) == nil, "an advisory can be read")
	zzsym.Assert(osv.IsAffected(pkg) == want, "the advisory itself says the same")
	zzsym.Observe(vItoa(len(res[0])))
}

// advisories of unusual shape among others for the same package
func verifC03Shape() {
	n := 1 + zzsym.Choice("n", 2+zzsym.Tier())
	var docs []string
	want := ""
	names := []string{"foo", "bar"}
	mine := names[zzsym.Choice("mine", 2)]
	for i := range n {
		id := "V-" + vItoa(i)
		o := vOSV{id: id}
		hit := false
		entries := 1
		if i == 0 {
			entries += zzsym.Choice("entries", 3)
		}
		for range entries {
			nm := names[zzsym.Choice("name", 2)]
			o.affected = append(o.affected, vAff{eco: "npm", name: nm, versions: []string{"1.0"}})
			hit = hit || nm == mine
		}
		doc := o.vJSON()
		switch zzsym.Choice("withdrawn", 4) {
		case 1:
			doc = strings.Replace(doc, "\"modified\"", "\"withdrawn\":\"0001-01-01T00:00:00Z\",\"modified\"", 1)
			hit = false
		case 2:
			doc = strings.Replace(doc, "\"modified\"", "\"withdrawn\":\"2999-01-01T00:00:00Z\",\"modified\"", 1)
			hit = false
		case 3:
			doc = strings.Replace(doc, "\"modified\"", "\"withdrawn\":null,\"modified\"", 1)
		}
		if hit {
			want += id + ","
		}
		docs = append(docs, doc)
	}
	var db database.DB
	var err error
	cfg := database.Config{Name: "db", Type: "dir", URL: "file:/db"}
	names = nil
	if zzsym.Flag("names") {
		names = []string{mine}
	}
	if zzsym.Flag("zip") {
		var es []zzsym.ZipEntry
		for i, d := range docs {
			es = append(es, zzsym.ZipEntry{Name: vItoa(i) + ".json", Data: d})
		}
		z := zzsym.MakeZip(es)
		zzsym.Network(func(zzsym.Req) zzsym.Resp { return zzsym.Resp{Status: 200, Body: z} })
		cfg = database.Config{Name: "db", Type: "zip", URL: "https://example.com/all.zip"}
		db, err = database.NewZippedDB(cfg, false, names)
	} else {
		for i, d := range docs {
			zzsym.PutFile("db/"+vItoa(i)+".json", d)
		}
		db, err = database.NewDirDB(cfg, false, names)
	}
	if err != nil {
		zzsym.Assert(false, "the database loads")

		return
	}
	res := vCheck(db, internal.PackageDetails{Name: mine, Version: "1.0", Ecosystem: "npm", CompareAs: "npm"})
	got := ""
	for _, v := range res[0] {
		got += v.ID + ","
	}
	zzsym.Assert(got == want, "every package gets exactly the live advisories that affect it, each once")
	zzsym.Observe(got)
}

// packages that are only partly known do not change what is found for them or for others
func verifC04Bare() {
	zs := []zzsym.ZipEntry{}
	for i, n := range []string{"a", "b"} {
		zs = append(zs, zzsym.ZipEntry{Name: n + ".json", Data: vSimple("V-"+vItoa(i), "npm", n).vJSON()})
	}
	z := zzsym.MakeZip(zs)
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		if strings.HasSuffix(r.URL, "/npm/all.zip") {
			return zzsym.Resp{Status: 200, Body: z}
		}

		return zzsym.Resp{Status: 404}
	})
	args := []string{"--no-config"}
	rows := 1 + zzsym.Choice("n", 3)
	apart := zzsym.Flag("apart")
	doc := ""
	git := 0
	if rows > 1 && zzsym.Flag("git") { // one of them is a commit
		rows--
		git = 1
		n := zzsym.Pick("name", "a", "b")
		zzsym.PutFile("package-lock.json", "{\"lockfileVersion\":1,\"dependencies\":{\""+n+"\":{\"version\":\"git+ssh://git@github.com/o/"+n+".git#0123456789abcdef0123456789abcdef01234567\"}}}")
		args = append(args, "package-lock.json")
	}
	for i := range rows {
		doc += "npm,," + zzsym.Pick("name", "a", "b") + "," + zzsym.Pick("version", "", "1.0") + "\n"
		if apart || i == rows-1 {
			zzsym.PutFile("rows"+vItoa(i), doc)
			args = append(args, "csv-file:rows"+vItoa(i))
			doc = ""
		}
	}
	out, d := vRunJSON(args...)
	zzsym.Assert(out.code == 1, "what is vulnerable is reported")
	n := 0
	for _, f := range d.Results {
		for _, p := range f.Packages {
			n++
			want := "V-0"
			if p.Name == "b" {
				want = "V-1"
			}
			zzsym.Assert(vIDs(p.Vulnerabilities) == want, "what is found for a package does not depend on the others, nor on its version being known")
		}
	}
	zzsym.Assert(n == rows+git, "every package is reported")
	zzsym.Observe(vShow(d))
}

// ids that are nearly the same are different
func verifC05Near() {
	near := []string{"CVE-1", "CVE-10", "cve-1", "CVE-2", "VE-1"}
	a, b := vSimple("CVE-1", "npm", "foo"), vSimple(near[zzsym.Choice("id", len(near))], "npm", "foo")
	if zzsym.Flag("aa") {
		a.aliases = append(a.aliases, near[zzsym.Choice("aa", len(near))])
	}
	for range zzsym.Choice("ba", 3) {
		b.aliases = append(b.aliases, near[zzsym.Choice("ba", len(near))])
	}
	a.summary, b.summary = "same", "same"
	a.details, b.details = "also", "also"
	if zzsym.Flag("two") {
		vPutDB("db1", a)
		vPutDB("db2", b)
	} else {
		vPutDB("db1", a, b)
		vPutDB("db2")
	}
	vConfig("c.yml", nil, "db1", "db2")
	_, d := vRunJSON("--config=c.yml", "--use-dbs=false", "--parse-as=csv-row", "npm,,foo,1.0")
	want := a.id + "," + b.id
	if vRelated(a, b) {
		want = a.id
	}
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 1 {
		zzsym.Assert(false, "the package given is reported")

		return
	}
	zzsym.Assert(vIDs(d.Results[0].Packages[0].Vulnerabilities) == want, "advisories are the same vulnerability only by the very same ids")
	zzsym.Observe(vShow(d))
}

// advisories ignored and not, for one package, several packages and several files
func verifC07Mixed() {
	vPutDB("db", vSimple("V-1", "crates.io", "foo"), vSimple("V-2", "crates.io", "foo"), vSimple("V-3", "crates.io", "bar"))
	vConfig("c.yml", nil, "db")
	args := []string{"--config=c.yml", "--use-dbs=false"}
	ign := map[string]bool{}
	for range zzsym.Choice("ignores", 3) {
		id := "V-" + zzsym.Str("id", 1, "1234")
		ign[id] = true
		args = append(args, "--ignore="+id)
	}
	left := false
	for i := range 1 + zzsym.Choice("files", 2) {
		p := "p" + vItoa(i) + "/Cargo.lock"
		switch zzsym.Choice("kind", 3) {
		case 0:
			zzsym.PutFile(p, vCargoFoo)
			left = left || !ign["V-1"] || !ign["V-2"]
		case 1:
			zzsym.PutFile(p, vCargoBar)
			left = left || !ign["V-3"]
		case 2:
			zzsym.PutFile(p, vCargoFoo+vCargoBar)
			left = left || !ign["V-1"] || !ign["V-2"] || !ign["V-3"]
		}
		args = append(args, p)
	}
	if zzsym.Flag("json") {
		args = append(args[:1:1], append([]string{"--json"}, args[1:]...)...)
	}
	out := vRun(args...)
	want := 0
	if left {
		want = 1
	}
	zzsym.Assert(out.code == want, "the exit code is 1 exactly when something found is not ignored")
	zzsym.Observe(vItoa(out.code))
}

// offline, no address is an exception
func verifC11Hosts() {
	host := zzsym.Pick("host", "http://localhost:8080", "http://127.0.0.1", "https://api.osv.dev", "http://example.local", "https://osv-vulnerabilities.storage.googleapis.com")
	kind := zzsym.Pick("kind", "api", "zip")
	path := "/v1"
	if kind == "zip" {
		path = "/a.zip"
	}
	zzsym.PutFile("c.yml", "extra-databases:\n  - url: \""+host+path+"\"\n    type: "+kind+"\n")
	zzsym.PutFile("Cargo.lock", vLockOf("foo", "1.0"))
	z := zzsym.MakeZip([]zzsym.ZipEntry{{Name: "a.json", Data: vSimple("A-1", "crates.io", "foo").vJSON()}})
	reqs := 0
	tag := zzsym.Pick("tag", "", "\"e\"")
	body := z
	if zzsym.Flag("empty") {
		body = ""
	}
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		reqs++

		return zzsym.Resp{Status: 200, Body: body, ETag: tag}
	})
	args := []string{"--use-dbs=false", "--config=c.yml", "Cargo.lock"}
	online := vOut{}
	before := kind == "zip" && zzsym.Flag("before")
	if before {
		online = vRun(args...)
		zzsym.Assert((online.code == 1) == (body == z) && (online.code == 1 || online.code == 127), "an archive that can be read is used, any other is an error")
	}
	body = z
	reqs = 0
	out, d := vRunJSON(append([]string{"--offline"}, args...)...)
	zzsym.Assert(reqs == 0, "nothing is requested from the network when offline")
	if before && online.code == 1 {
		zzsym.Assert(out.code == 1 && vShowIDs(d) == "A-1", "offline uses the databases downloaded before")
	} else {
		zzsym.Assert(out.code == 127 && vShowIDs(d) == "", "a database that was not downloaded is an error offline")
	}
	zzsym.Observe(vItoa(out.code))
}

// the JSON report has the same parts whatever was found
func verifC13Keys() {
	vPutDB("db", vSimple("V-1", "crates.io", "foo"))
	vConfig("c.yml", nil, "db")
	args := []string{"--json", "--config=c.yml", "--use-dbs=false"}
	if zzsym.Flag("ignore") {
		args = append(args, "--ignore=V-1")
	}
	n := 1 + zzsym.Choice("files", 2)
	for i := range n {
		p := "p" + vItoa(i) + "/Cargo.lock"
		zzsym.PutFile(p, zzsym.Pick("doc", "", vCargoFoo, vCargoBar))
		args = append(args, p)
	}
	list := zzsym.Flag("list")
	if list {
		args = append([]string{"--list-packages"}, args...)
	}
	out := vRun(args...)
	var d struct {
		Results []map[string]json.RawMessage `json:"results"`
	}
	zzsym.Assert(json.Unmarshal([]byte(out.stdout), &d) == nil, "with --json the standard output is one JSON document")
	zzsym.Assert(len(d.Results) == n, "there is one result per lockfile")
	for _, r := range d.Results {
		var s string
		zzsym.Assert(json.Unmarshal(r["filePath"], &s) == nil && json.Unmarshal(r["parsedAs"], &s) == nil, "each result names its lockfile and how it was read")
		zzsym.Assert(strings.HasPrefix(string(r["packages"]), "["), "each result has a list of packages, if only an empty one")
		var ps []map[string]json.RawMessage
		zzsym.Assert(json.Unmarshal(r["packages"], &ps) == nil, "each result has a list of packages")
		for _, p := range ps {
			for _, k := range []string{"name", "version", "ecosystem"} {
				zzsym.Assert(json.Unmarshal(p[k], &s) == nil && s != "", "each package has its name, version and ecosystem")
			}
			if list {
				continue
			}
			for _, k := range []string{"vulnerabilities", "ignored"} {
				zzsym.Assert(strings.HasPrefix(string(p[k]), "["), "each package has its lists of advisories, if only empty ones")
			}
		}
	}
	zzsym.Observe(out.stdout)
}

// lockfiles and directories reached through symbolic links
func verifC14Links() {
	zzsym.PutFile("real/Cargo.lock", vLockOf("foo", "1."+zzsym.Str("v", 1, "0123456789")))
	zzsym.PutDir("d")
	want := []string{}
	arg := "d"
	switch zzsym.Choice("kind", 5) {
	case 0: // a linked lockfile in a directory
		zzsym.PutLink("../real/Cargo.lock", "d/Cargo.lock")
		want = append(want, "d/Cargo.lock")
	case 1: // beside a plain one
		zzsym.PutLink("../real/Cargo.lock", "d/Cargo.lock")
		zzsym.PutFile("d/uv.lock", "version = 1\n[[package]]\nname = \"foo\"\nversion = \"1.0\"\n")
		want = append(want, "d/Cargo.lock", "d/uv.lock")
	case 2: // a linked directory
		zzsym.PutLink("real", "e")
		arg = "e"
		want = append(want, "e/Cargo.lock")
	case 3: // a linked lockfile, by its path
		zzsym.PutLink("../real/Cargo.lock", "d/Cargo.lock")
		arg = "d/Cargo.lock"
		want = append(want, "d/Cargo.lock")
	case 4: // linked under another name
		zzsym.PutLink("../real/Cargo.lock", "d/x")
		arg = "Cargo.lock:d/x"
		want = append(want, "d/x")
	}
	out, d := vRunJSON("--list-packages", arg)
	zzsym.Assert(out.code == 0, "lockfiles that can be read are")
	if len(d.Results) != len(want) {
		zzsym.Assert(false, "exactly the lockfiles asked for are read")

		return
	}
	for i, w := range want {
		zzsym.Assert(d.Results[i].FilePath == w, "lockfiles are reported by the path they were given or found under")
		zzsym.Assert(len(d.Results[i].Packages) == 1 && d.Results[i].Packages[0].Name == "foo", "their packages are found")
	}
	zzsym.Observe(vShow(d))
}

// packages at all places, with and without a name of their own
func verifC15Paths() {
	w := vWant{name: zzsym.Str("name", 1, "ab-"), ver: "1." + zzsym.Str("v", 1, "0123456789")}
	if zzsym.Flag("scoped") {
		w.name = "@s/" + w.name
	}
	at := zzsym.Pick("at", "node_modules/", "node_modules/x/node_modules/", "node_modules/@y/x/node_modules/", "packages/x/node_modules/", "node_modules/a/node_modules/b/node_modules/", "../up/node_modules/", "../", "libs/")
	e := "\"version\":\"" + w.ver + "\""
	path := at + w.name
	if zzsym.Flag("alias") {
		path = at + zzsym.Pick("as", "alias", "@t/alias", "x")
		e += ",\"name\":\"" + w.name + "\""
	}
	switch zzsym.Choice("more", 5) {
	case 1:
		e += ",\"dev\":true"
	case 2:
		e += ",\"inBundle\":true,\"extraneous\":true"
	case 3:
		e += ",\"devOptional\":true,\"peer\":true"
	case 4:
		w.commit = zzsym.Str("c", 2, "aAf0")
		e += ",\"resolved\":\"git+ssh://git@github.com/o/r.git#" + w.commit + "\""
	}
	zzsym.PutFile("package-lock.json", "{\"lockfileVersion\":3,\"packages\":{\"\":{\"name\":\"me\",\"version\":\"9.9\"},\""+path+"\":{"+e+"}}}")
	vCheckList("package-lock.json", []vWant{w}, "npm")
}

// requirements that look like something else, and something else that looks like requirements
func verifC18Words() {
	d := zzsym.Str("v", 1, "0123456789")
	var ws []vWant
	line := ""
	switch zzsym.Choice("kind", 2) {
	case 0:
		n := zzsym.Pick("name", "httpx", "https", "http-parser", "file-magic", "git-url", "r", "e", "c", "hash", "python-version", "fil", "requirements.txt", "a.whl", "zip", "svn", "pip")
		ws = append(ws, vWant{name: strings.ReplaceAll(n, ".", "-"), ver: "1." + d})
		line = n + zzsym.Pick("op", "==", " == ", "[http]==") + "1." + d
	case 1:
		line = "foo==1." + d
		ws = append(ws, vWant{name: "foo", ver: "1." + d})
		if zzsym.Flag("bare") {
			line = "foo"
			ws[0].ver = "0.0.0"
		}
		line += zzsym.Pick("option", " --hash=sha256:ab", " --global-option=\"--x\"", " --install-option='--y==2'", " --config-settings \"a=b\"", " --no-binary", " --config-settings \"u=https://x/y\"", " ; extra == 'x'", ";extra=='x'", " #egg=x==2")
	}
	other := "bar==2." + d
	ws = append(ws, vWant{name: "bar", ver: "2." + d})
	doc := line + "\n" + other + "\n"
	if zzsym.Flag("after") {
		doc = other + "\n" + line + "\n"
	}
	zzsym.PutFile("requirements.txt", doc)
	vCheckList("requirements.txt", ws, "PyPI")
}

// modules whose paths begin or end alike
func verifC21Near() {
	paths := []string{"example.com/a", "example.com/ab", "example.com/a/b", "example.com/a/v2", "other.com/a"}
	d := zzsym.Str("v", 1, "0123456789")
	doc := "module example.com/m\n\nrequire (\n"
	from := zzsym.Choice("from", len(paths))
	var ws []vWant
	ver := func(p string) string {
		if strings.HasSuffix(p, "/v2") {
			return "2." + d + ".0"
		}

		return "1." + d + ".0"
	}
	spec := zzsym.Flag("specific")
	for i, p := range paths {
		doc += "\t" + p + " v" + ver(p) + "\n"
		if i == from {
			ws = append(ws, vWant{name: "fork.com/x", ver: "1.9.0"})
		} else {
			ws = append(ws, vWant{name: p, ver: ver(p)})
		}
	}
	left := paths[from]
	if spec {
		left += " v" + ver(left)
	}
	doc += ")\n\nreplace " + left + " => fork.com/x v1.9.0\n"
	zzsym.PutFile("go.mod", doc)
	vCheckList("go.mod", ws, "Go")
}

// databases reached through symbolic links
func verifC29Links() {
	id := "V-" + zzsym.Str("id", 1, "123")
	doc := vSimple(id, "crates.io", "foo").vJSON()
	url := "file:/db"
	wd := ""
	code := 1
	switch zzsym.Choice("kind", 6) {
	case 0: // an advisory that is a link
		zzsym.PutFile("real/a.json", doc)
		zzsym.PutDir("db")
		zzsym.PutLink("../real/a.json", "db/a.json")
	case 1: // below the database
		zzsym.PutFile("real/a.json", doc)
		zzsym.PutDir("db/sub")
		zzsym.PutLink("../../real/a.json", "db/sub/a.json")
	case 2: // the database is a link
		zzsym.PutFile("real/a.json", doc)
		zzsym.PutLink("real", "db")
	case 3: // what is looked at is a link
		zzsym.PutFile("db/real/a.json", doc)
		zzsym.PutFile("db/other/b.json", vSimple("V-9", "crates.io", "foo").vJSON())
		zzsym.PutLink("real", "db/link")
		wd = "    working-directory: link\n"
	case 4: // a link to a link
		zzsym.PutFile("real/a.json", doc)
		zzsym.PutLink("real", "link")
		zzsym.PutLink("link", "db")
	case 5: // a link to nothing
		zzsym.PutLink("real", "db")
		code = 127
	}
	zzsym.PutFile("c.yml", "extra-databases:\n  - url: "+url+"\n"+wd)
	zzsym.PutFile("Cargo.lock", vLockOf("foo", "1.0"))
	out, d := vRunJSON("--use-dbs=false", "--config=c.yml", "Cargo.lock")
	if code == 127 {
		zzsym.Assert(out.code == 127 && vShowIDs(d) == "" && out.stderr != "", "a database that is not there is an error")
	} else {
		zzsym.Assert(out.code == 1 && vShowIDs(d) == id, "the advisories of a database are found, however it is reached")
	}
	zzsym.Observe(vItoa(out.code) + vShowIDs(d))
}

// longer names, versions and commits in all combinations, as a library would ask
func verifC10Exact() {
	pkg := internal.PackageDetails{
		Name:      vLongText("name", 1, 9, 20),
		Version:   vLongText("version", 0, 5, 12),
		Commit:    vLongText("commit", 0, 7, 40),
		Ecosystem: internal.Ecosystem(zzsym.Pick("eco", "npm", "PyPI", "Go", "Maven", "Packagist", "RubyGems", "crates.io", "NuGet", "Hex", "Pub", "CRAN", "Alpine:v3.18", "")),
	}
	pkg.CompareAs = pkg.Ecosystem
	s := &vServer{vulns: func(vQuery) []string { return nil }}
	s.start()
	db, err := database.NewAPIDB(database.Config{Name: "api", Type: "api", URL: vAPI}, false, 10)
	if err != nil {
		zzsym.Assert(false, "an API database can be made")

		return
	}
	if zzsym.Flag("many") {
		vCheck(db, internal.PackageDetails{Name: "x", Version: "1", Ecosystem: "npm"}, pkg)
	} else {
		vCheck(db, pkg)
	}
	if len(s.batches) != 1 || len(s.batches[0].Queries) == 0 {
		zzsym.Assert(false, "the package is asked about")

		return
	}
	q := s.batches[0].Queries[len(s.batches[0].Queries)-1]
	switch {
	case pkg.Version != "" && pkg.Ecosystem != "":
		zzsym.Assert(q.Package.Name == pkg.Name && q.Package.Ecosystem == string(pkg.Ecosystem) && q.Version == pkg.Version && q.Commit == "", "the query names the package, its ecosystem and its version exactly")
	case pkg.Commit != "":
		zzsym.Assert(q.Commit == pkg.Commit && q.Version == "" && q.Package.Name == "" && q.Package.Ecosystem == "", "a package known by its commit alone is asked about by commit")
	default:
		zzsym.Assert(q.Version == "" && q.Package.Name == "" && q.Commit == "", "a package without a version is not asked about by name")
	}
	zzsym.Observe(q.Package.Name + "|" + q.Package.Ecosystem + "|" + q.Version + "|" + q.Commit)
}

const vWide = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_./@+:~^"

// vLongText is a text of one of the given lengths.
func vLongText(name string, ns ...int) string {
	n := ns[zzsym.Choice(name+".len", len(ns))]
	if n == 0 {
		return ""
	}

	return zzsym.Str(name, n, vWide)
}

func vEcoOf(name string) string {
	return zzsym.Pick(name, "npm", "Go", "Maven", "Packagist", "RubyGems", "crates.io", "NuGet", "Hex", "Pub", "CRAN", "Alpine:v3.18", "acme")
}

// names of any length are compared exactly in every ecosystem but PyPI
func verifC02Long() {
	eco := vEcoOf("eco")
	a := vLongText("name", 2, 9, 20)
	p := a
	if zzsym.Flag("other") {
		p = zzsym.Str("pkg", len(a), vWide)
	}
	var names []string
	if zzsym.Flag("names") {
		names = []string{p}
	}
	o := vSimple("OSV-1", eco, a)
	pkg := internal.PackageDetails{Name: p, Version: "1.0", Ecosystem: internal.Ecosystem(eco), CompareAs: "npm"}
	res := vCheck(vDirDB(names, o), pkg)
	zzsym.Assert((len(res[0]) == 1) == (a == p), "outside PyPI an advisory applies exactly when the names are identical")
	zzsym.Observe(vItoa(len(res[0])))
}

// whatever advisories say of themselves, each that covers the package is found
func verifC03Long() {
	n := 2 + zzsym.Choice("n", 2)
	v := vLongText("version", 1, 9)
	var osvs []vOSV
	want := ""
	sum, det := vLongText("summary", 0, 12), vLongText("details", 0, 12)
	for i := range n {
		o := vSimple(vLongText("id", 8, 19)+vItoa(i), "npm", "foo")
		o.affected[0].ranges = nil
		o.affected[0].versions = []string{v}
		o.summary, o.details = sum, det
		if i > 0 && zzsym.Flag("own") {
			o.summary, o.details = vLongText("mysummary", 0, 12), "x"
		}
		osvs = append(osvs, o)
		want += o.id + ","
	}
	var names []string
	if zzsym.Flag("names") {
		names = []string{"foo"}
	}
	res := vCheck(vDirDB(names, osvs...), internal.PackageDetails{Name: "foo", Version: v, Ecosystem: "npm", CompareAs: "npm"})
	got := ""
	for _, x := range res[0] {
		got += x.ID + ","
	}
	zzsym.Assert(got == want, "every package gets exactly the live advisories that affect it, each once")
	zzsym.Observe(got)
}

// names go unchanged all the way from the lockfile to the database
func verifC04Long() {
	eco := zzsym.Pick("eco", "npm", "Packagist", "Go", "Maven", "acme")
	ns := []string{vLongText("name", 2, 11), vLongText("name", 2, 11)}
	zzsym.Assume(ns[0] != ns[1])
	var zs []zzsym.ZipEntry
	for i, n := range ns {
		zs = append(zs, zzsym.ZipEntry{Name: vItoa(i) + ".json", Data: vSimple("V-"+vItoa(i), eco, n).vJSON()})
	}
	z := zzsym.MakeZip(zs)
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		if strings.HasSuffix(r.URL, "/"+eco+"/all.zip") {
			return zzsym.Resp{Status: 200, Body: z}
		}

		return zzsym.Resp{Status: 404}
	})
	args := []string{"--no-config", "csv-file:a"}
	zzsym.PutFile("a", eco+",npm,"+ns[0]+",1.0\n")
	if zzsym.Flag("both") {
		zzsym.PutFile("b", eco+",npm,"+ns[1]+",1.0\n")
		args = append(args, "csv-file:b")
	}
	out, d := vRunJSON(args...)
	zzsym.Assert(out.code == 1 && len(d.Results) == len(args)-1, "what is vulnerable is reported")
	for i, f := range d.Results {
		zzsym.Assert(len(f.Packages) == 1 && f.Packages[0].Name == ns[i] && vIDs(f.Packages[0].Vulnerabilities) == "V-"+vItoa(i), "what is found for a package does not depend on the others, nor on how it is spelt")
	}
	zzsym.Observe(vShow(d))
}
