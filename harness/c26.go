package main

import (
	"io"
	"sort"
	"strings"

	"github.com/g-rath/osv-detector/internal/configer"
	"github.com/g-rath/osv-detector/internal/reporter"
	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC26Which", verifC26Which)
var _ = zzsym.Reg("verifC26Kind", verifC26Kind)
var _ = zzsym.Reg("verifC26Shared", verifC26Shared)
var _ = zzsym.Reg("verifC26Own", verifC26Own)
var _ = zzsym.Reg("verifC26Failed", verifC26Failed)
var _ = zzsym.Reg("verifC27Update", verifC27Update)
var _ = zzsym.Reg("verifC27Files", verifC27Files)
var _ = zzsym.Reg("verifC27Keep", verifC27Keep)

// vFoundIDs are the advisories reported for the only package of the i-th result.
func vFoundIDs(d vDoc, i int) string {
	if i >= len(d.Results) || len(d.Results[i].Packages) != 1 {
		return "?"
	}
	var ids []string
	for _, v := range d.Results[i].Packages[0].Vulnerabilities {
		ids = append(ids, v.ID)
	}
	sort.Strings(ids)

	return strings.Join(ids, ",")
}

// which config and which databases are used
func verifC26Which() {
	zzsym.PutFile("a/p/Cargo.lock", vCargoFoo)
	for _, n := range []string{"yml", "yaml", "cwd", "up", "given"} {
		vPutDB("db-"+n, vSimple("V-"+n, "crates.io", "foo"))
	}
	vPutDB("db-api", vSimple("V-api", "crates.io", "foo"))
	ignores := map[string]bool{}
	ign := 0
	put := func(what, path string) bool {
		switch zzsym.Choice(what, 2+ign) {
		case 0:
			return false
		case 1:
			vConfig(path, nil, "db-"+what)
		case 2:
			vConfig(path, []string{"V-yml", "V-yaml", "V-zip", "V-api"}, "db-"+what)
			ignores[what] = true
		}

		return true
	}
	ign = 1
	yml := put("yml", "a/p/.osv-detector.yml")
	yaml := put("yaml", "a/p/.osv-detector.yaml")
	ign = 0
	put("cwd", ".osv-detector.yml")
	put("up", "a/.osv-detector.yaml")
	vConfig("given.yml", nil, "db-given")
	var args, want []string
	used := ""
	switch {
	case yml:
		used = "yml"
	case yaml:
		used = "yaml"
	}
	files := map[string]string{"yml": "a/p/.osv-detector.yml", "yaml": "a/p/.osv-detector.yaml", "given": "given.yml"}
	if zzsym.Flag("given") {
		used = "given"
		args = append(args, "--config="+zzsym.Pick("spelling", "given.yml", "./given.yml", "a/../given.yml"))
	}
	if zzsym.Flag("no-config") {
		used = ""
		args = append(args, "--no-config")
	}
	file := files[used]
	ignored := ignores[used]
	if zzsym.Flag("no-config-databases") {
		used = ""
		args = append(args, "--no-config-databases")
	}
	if used != "" {
		want = append(want, "V-"+used)
	}
	api := false
	switch zzsym.Choice("use-api", 3) {
	case 1:
		args = append(args, "--use-api")
		api = true
	case 2:
		args = append(args, "--use-api=false")
	}
	dbs := true
	switch zzsym.Choice("use-dbs", 3) {
	case 1:
		args = append(args, "--use-dbs")
	case 2:
		args = append(args, "--use-dbs=false")
		dbs = false
	}
	s := &vServer{vulns: func(vQuery) []string { return []string{"V-api"} }}
	s.details = func(id string) string { return vSimple(id, "crates.io", "foo").vJSON() }
	zip := zzsym.MakeZip([]zzsym.ZipEntry{{Name: "x.json", Data: vSimple("V-zip", "crates.io", "foo").vJSON()}})
	zips, apis := 0, 0
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		if strings.HasPrefix(r.URL, vAPI+"/") {
			apis++

			return s.answer(r)
		}
		zips++
		if r.URL == "https://osv-vulnerabilities.storage.googleapis.com/crates.io/all.zip" {
			return zzsym.Resp{Status: 200, Body: zip}
		}

		return zzsym.Resp{Status: 404}
	})
	if api {
		want = append(want, "V-api")
	}
	if dbs {
		want = append(want, "V-zip")
	}
	sort.Strings(want)
	if ignored {
		want = nil
	}
	out, d := vRunJSON(append(args, "a/p/Cargo.lock")...)
	zzsym.Assert(vFoundIDs(d, 0) == strings.Join(want, ","), "a lockfile is checked against exactly the databases asked for, those of its config included")
	zzsym.Assert((apis > 0) == api, "the API is asked exactly when it should be")
	zzsym.Assert((zips > 0) == dbs && zips <= 1, "databases are downloaded exactly when they should be")
	if file != "" {
		zzsym.Assert(vHas(out.stderr, "Using config at "+file+map[bool]string{false: " (0 ignores)", true: " (4 ignores)"}[ignored]), "the config used is named")
	} else {
		zzsym.Assert(!vHas(out.stderr, "Using config"), "no config is named when there is none")
	}
	if len(want) > 0 {
		zzsym.Assert(out.code == 1, "findings give 1")
	} else {
		zzsym.Assert(out.code == 0, "no findings give 0")
	}
	zzsym.Observe(vItoa(out.code) + vShow(d))
}

// what kind of database an entry of a config is
func verifC26Kind() {
	zzsym.PutFile("p/Cargo.lock", vCargoFoo)
	vPutDB("here", vSimple("V-dir", "crates.io", "foo"))
	vPutDB("here.zip", vSimple("V-dir", "crates.io", "foo"))
	base := zzsym.Pick("base", "https://example.com/", "https://example.com/a.zip/", "http://localhost:8080/", "file:/", "file:///")
	path := "here"
	if zzsym.Flag("deep") {
		path = zzsym.Str("path", 1, "ab-") + zzsym.Str("path", 1, "ab.-") + "/" + path
	}
	url := base + path
	if zzsym.Flag("zip") {
		url += ".zip"
	}
	typ := zzsym.Pick("type", "", "zip", "api", "dir", "Zip", "wat")
	kind := typ
	local := strings.HasPrefix(url, "file:")
	if kind == "" {
		switch {
		case local:
			kind = "dir"
		case strings.HasSuffix(url, ".zip"):
			kind = "zip"
		default:
			kind = "api"
		}
	}
	cfg := "extra-databases:\n  - url: \"" + url + "\"\n"
	if typ != "" {
		cfg += "    type: " + typ + "\n"
	}
	name := ""
	if zzsym.Flag("name") {
		name = "my " + zzsym.Str("name", 1, "abc") + " db"
		cfg += "    name: \"" + name + "\"\n"
	}
	zzsym.PutFile("p/.osv-detector.yml", cfg)
	s := &vServer{base: url, vulns: func(vQuery) []string { return []string{"V-api"} }}
	s.details = func(id string) string { return vSimple(id, "crates.io", "foo").vJSON() }
	zip := zzsym.MakeZip([]zzsym.ZipEntry{{Name: "x.json", Data: vSimple("V-zip", "crates.io", "foo").vJSON()}})
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		if r.Method == "GET" && r.URL == url {
			return zzsym.Resp{Status: 200, Body: zip}
		}

		return s.answer(r)
	})
	out, d := vRunJSON("--use-dbs=false", "p/Cargo.lock")
	want := ""
	switch kind {
	case "zip":
		if !local {
			want = "V-zip"
		}
	case "api":
		if !local {
			want = "V-api"
		}
	case "dir":
		if local && path == "here" {
			want = "V-dir"
		}
	}
	if local && kind != "dir" {
		return // whatever the network makes of it
	}
	zzsym.Assert(vFoundIDs(d, 0) == want, "a database is used as the kind its config says, else the one its address tells")
	if want == "" {
		zzsym.Assert(out.code == 127 && out.stderr != "", "a database that cannot be used is an error")
	} else {
		zzsym.Assert(out.code == 1, "findings give 1")
		if name == "" {
			name = kind + "#" + url
		}
		zzsym.Assert(vCount(out.stderr, name) >= 2, "databases are named")
	}
	zzsym.Observe(vItoa(out.code) + vShow(d))
}

// each lockfile is checked against its own databases only, and each database is loaded once
func verifC26Own() {
	zips := []string{"https://example.com/0.zip", "https://example.com/1.zip"}
	bodies := make([]string, 2)
	for i := range zips {
		bodies[i] = zzsym.MakeZip([]zzsym.ZipEntry{{Name: "one/x.json", Data: vSimple("V-"+vItoa(i)+"-one", "crates.io", "foo").vJSON()}, {Name: "two/x.json", Data: vSimple("V-"+vItoa(i)+"-two", "crates.io", "foo").vJSON()}})
	}
	asked := []int{0, 0}
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		for i, z := range zips {
			if r.URL == z {
				asked[i]++

				return zzsym.Resp{Status: 200, Body: bodies[i]}
			}
		}

		return zzsym.Resp{Status: 404}
	})
	n := 2
	named := zzsym.Flag("named")
	dirs := zzsym.Flag("dirs")
	for i := range zips {
		zzsym.PutFile("db"+vItoa(i)+"/one/x.json", vSimple("V-"+vItoa(i)+"-one", "crates.io", "foo").vJSON())
		zzsym.PutFile("db"+vItoa(i)+"/two/x.json", vSimple("V-"+vItoa(i)+"-two", "crates.io", "foo").vJSON())
	}
	wants := make([]string, n)
	seen := map[string]bool{}
	args := []string{"--use-dbs=false"}
	for f := range n {
		zzsym.PutFile("p"+vItoa(f)+"/Cargo.lock", vCargoFoo)
		args = append(args, "p"+vItoa(f)+"/Cargo.lock")
		cfg := "ignore: []\nextra-databases:\n"
		ids := map[string]bool{}
		k := zzsym.Choice("dbs", 4) // 3: no config at all
		for range k % 3 {
			z := zzsym.Choice("zip", 2)
			wd := []string{"", "one/", "two/"}[zzsym.Choice("wd", 2+zzsym.Tier())]
			url := zips[z]
			if dirs {
				url = "file:/db" + vItoa(z)
			}
			cfg += "  - url: " + url + "\n"
			if wd != "" {
				cfg += "    working-directory: " + wd + "\n"
			}
			if named {
				cfg += "    name: same\n"
			}
			seen[zips[z]+"#"+wd] = true
			if wd != "two/" {
				ids["V-"+vItoa(z)+"-one"] = true
			}
			if wd != "one/" {
				ids["V-"+vItoa(z)+"-two"] = true
			}
		}
		if k < 3 {
			zzsym.PutFile("p"+vItoa(f)+"/.osv-detector.yml", cfg)
		}
		var want []string
		for id := range ids {
			want = append(want, id)
		}
		sort.Strings(want)
		wants[f] = strings.Join(want, ",")
	}
	out, d := vRunJSON(args...)
	for f := range n {
		zzsym.Assert(vFoundIDs(d, f) == wants[f], "each lockfile is checked against exactly the databases of its own config")
	}
	if dirs {
		loaded, _, _ := strings.Cut(out.stderr, "\n\n")
		zzsym.Assert(vCount(loaded, "\n  ") == len(seen), "each database is loaded once however many lockfiles use it")
	} else {
		zzsym.Assert(asked[0]+asked[1] == len(seen), "each database is loaded once however many lockfiles use it")
	}
	zzsym.Observe(vShow(d))
}

// vLoad reads a config back.
func vLoad(path string) (configer.Config, bool) {
	c, err := configer.Load(reporter.New(io.Discard, io.Discard, false), path)
	zzsym.Assert(err == nil, "the config can still be read")

	return c, err == nil
}

// the ignores written are exactly what was found
func verifC27Update() {
	n := 2 + zzsym.Tier()
	var osvs []vOSV
	for range n {
		o := vSimple("V-"+zzsym.Str("id", 1, "123"), "crates.io", zzsym.Pick("pkg", "foo", "bar"))
		o.withdrawn = zzsym.Flag("withdrawn")
		osvs = append(osvs, o)
	}
	vPutDB("db", osvs...)
	var old []string
	for range zzsym.Choice("old", 2+zzsym.Tier()) {
		old = append(old, "V-"+zzsym.Str("old", 1, "129"))
	}
	path := "p/.osv-detector.yml"
	args := []string{"--use-dbs=false", "--update-config-ignores"}
	switch zzsym.Choice("where", 3) {
	case 1:
		path = "p/.osv-detector.yaml"
	case 2:
		path = "other.yml"
		args = append(args, "--config=other.yml")
	}
	vConfig(path, old, "db")
	switch zzsym.Choice("flag", 4) {
	case 1:
		args = append(args, "--ignore=V-"+zzsym.Str("flag", 1, "1"))
	case 2:
		args = append(args, "--no-config-ignores")
	case 3:
		args = append(args, "--no-config-ignores", "--ignore=V-1")
	}
	lock := vCargoFoo
	both := zzsym.Flag("both")
	if both {
		lock += vCargoBar
	}
	zzsym.PutFile("p/Cargo.lock", lock)
	out, d := vRunJSON(append(args, "p/Cargo.lock")...)
	found := map[string]bool{}
	left := 0
	for _, f := range d.Results {
		for _, p := range f.Packages {
			left += len(p.Vulnerabilities)
			for _, v := range p.Vulnerabilities {
				found[v.ID] = true
			}
			for _, v := range p.Ignored {
				found[v.ID] = true
			}
		}
	}
	want := map[string]bool{}
	for _, o := range osvs {
		if !o.withdrawn && (both || o.affected[0].name == "foo") {
			want[o.id] = true
		}
	}
	var ids []string
	for id := range want {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	c, ok := vLoad(path)
	if !ok {
		return
	}
	zzsym.Assert(strings.Join(c.Ignore, ",") == strings.Join(ids, ","), "the ignores of the config become exactly the advisories found, each once and in order")
	zzsym.Assert(len(found) == len(want), "and these are what was reported or ignored")
	zzsym.Assert(len(c.Databases) == 1 && c.Databases[0].URL == "file:/db", "the databases of the config stay")
	zzsym.Assert(vHas(out.stderr, "Updated "+path+" with "+vItoa(len(ids))+" "), "what was written is said")
	zzsym.Assert(out.code == min(left, 1), "the exit code is that of the check")
	before, _ := zzsym.GetFile(path)
	var again []string
	for _, a := range args {
		if a != "--no-config-ignores" {
			again = append(again, a)
		}
	}
	out, d = vRunJSON(append(again, "p/Cargo.lock")...)
	zzsym.Assert(out.code == 0, "afterwards nothing is left to report")
	for _, f := range d.Results {
		for _, p := range f.Packages {
			zzsym.Assert(len(p.Vulnerabilities) == 0, "afterwards nothing is left to report")
		}
	}
	after, _ := zzsym.GetFile(path)
	zzsym.Assert(before == after, "updating again changes nothing")
	zzsym.Observe(vItoa(out.code) + strings.Join(ids, ","))
}

// only configs in use are written, and only when asked to
func verifC27Files() {
	vPutDB("db", vSimple("V-1", "crates.io", "foo"), vSimple("V-2", "crates.io", "bar"), vSimple("V-3", "npm", "foo"))
	dirs := []string{"a", "b", "a/sub"}
	args := []string{"--use-dbs=false"}
	update := zzsym.Flag("update")
	if update {
		args = append(args, "--update-config-ignores")
	}
	mode := zzsym.Choice("mode", 3)
	switch mode {
	case 1:
		args = append(args, "--no-config")
	case 2:
		args = append(args, "--config=given.yml")
	}
	vConfig("given.yml", []string{"V-9"}, "db")
	vConfig(".osv-detector.yml", []string{"V-9"}, "db")
	has := map[string]bool{}
	want := map[string]string{"given.yml": "", ".osv-detector.yml": "keep"}
	if mode != 2 || !update {
		want["given.yml"] = "keep"
	}
	used := map[string]map[string]bool{}
	failed := false
	for _, d := range dirs {
		p := d + "/.osv-detector.yml"
		has[p] = zzsym.Flag("config")
		if has[p] {
			vConfig(p, []string{"V-9", "V-1"}, "db")
			want[p] = "keep"
		}
		ids := []string{}
		switch zzsym.Choice("lock", 5) {
		case 4: // nothing in it
			zzsym.PutFile(d+"/Cargo.lock", "version = 3\n")
		case 0:
			continue
		case 1:
			zzsym.PutFile(d+"/Cargo.lock", vCargoFoo)
			ids = []string{"V-1"}
		case 2:
			zzsym.PutFile(d+"/Cargo.lock", vCargoFoo+vCargoBar)
			ids = []string{"V-1", "V-2"}
		case 3:
			zzsym.PutFile(d+"/Cargo.lock", "[[package]\n")
			ids = nil
			failed = true
		}
		args = append(args, d+"/Cargo.lock")
		if ids == nil || !update || mode == 1 {
			continue
		}
		if mode == 2 {
			p = "given.yml"
		} else if !has[p] {
			continue
		}
		if used[p] == nil {
			used[p] = map[string]bool{}
		}
		for _, id := range ids {
			used[p][id] = true
		}
	}
	old := map[string]string{}
	for p := range want {
		old[p], _ = zzsym.GetFile(p)
	}
	out := vRun(args...)
	for p := range want {
		now, ok := zzsym.GetFile(p)
		zzsym.Assert(ok, "no config is lost")
		if used[p] == nil {
			zzsym.Assert(now == old[p], "a config that is not used, or not to be updated, stays as it is")

			continue
		}
		var ids []string
		for _, id := range []string{"V-1", "V-2"} {
			if used[p][id] {
				ids = append(ids, id)
			}
		}
		c, ok := vLoad(p)
		zzsym.Assert(ok && strings.Join(c.Ignore, ",") == strings.Join(ids, ","), "a config gets what was found in the lockfiles that use it")
		zzsym.Assert(len(c.Databases) == 1, "the databases of the config stay")
		zzsym.Assert(vHas(out.stdout, "Updated "+p+" with"), "what was written is said")
	}
	zzsym.Assert(vCount(out.stdout, "Updated ") == len(used), "nothing else is said to be written")
	for _, d := range dirs {
		p := d + "/.osv-detector.yml"
		_, ok := zzsym.GetFile(p)
		zzsym.Assert(ok == has[p], "no config is created")
		_, ok = zzsym.GetFile(d + "/.osv-detector.yaml")
		zzsym.Assert(!ok, "no config is created")
	}
	if failed {
		zzsym.Assert(out.code == 127, "errors still give 127")
	}
	zzsym.Observe(vItoa(out.code))
}

// everything else in the config survives, and a config that cannot be written is an error
func verifC27Keep() {
	zzsym.PutFile("p/Cargo.lock", vCargoFoo)
	vPutDB("db", vSimple("V-1", "crates.io", "foo"))
	vPutDB("db/sub", vSimple("V-2", "crates.io", "foo"))
	zzsym.Network(func(zzsym.Req) zzsym.Resp { return zzsym.Resp{Err: "down"} })
	cfg := ""
	if zzsym.Flag("ignore") {
		cfg = "ignore:\n  - OLD-1\n"
	}
	type entry struct{ url, typ, name, wd string }
	var es []entry
	cfg += "extra-databases:\n"
	for range 1 + zzsym.Choice("dbs", 2) {
		e := entry{url: zzsym.Pick("url", "file:/db", "https://example.com/a.zip", "https://example.com/v1")}
		cfg += "  - url: " + e.url + "\n"
		if zzsym.Flag("type") {
			e.typ = zzsym.Pick("typ", "zip", "api", "dir")
			cfg += "    type: " + e.typ + "\n"
		}
		if zzsym.Flag("name") {
			e.name = zzsym.Str("name", 2, "ab%'#: {-") + "db"
			cfg += "    name: \"" + e.name + "\"\n"
		}
		if zzsym.Flag("wd") {
			e.wd = "sub"
			cfg += "    working-directory: sub\n"
		}
		es = append(es, e)
	}
	zzsym.PutFile("p/.osv-detector.yml", cfg)
	before, ok := vLoad("p/.osv-detector.yml")
	if !ok {
		return
	}
	args := []string{"--use-dbs=false", "--update-config-ignores", "p/Cargo.lock"}
	if zzsym.Flag("extras") {
		args = append([]string{"--no-config-databases", "--use-api"}, args...)
	}
	vRun(args...)
	after, ok := vLoad("p/.osv-detector.yml")
	if !ok {
		return
	}
	same := len(before.Databases) == len(after.Databases)
	for i, e := range before.Databases {
		same = same && e == after.Databases[i]
	}
	zzsym.Assert(same && len(es) == len(after.Databases), "every database of the config stays as it is")
	for i, e := range es {
		g := after.Databases[i]
		zzsym.Assert(g.URL == e.url && g.WorkingDirectory == e.wd && (e.name == "" || g.Name == e.name) && (e.typ == "" || g.Type == e.typ), "with its address, kind, name and working directory")
	}
}

// one config for lockfiles of several ecosystems
func verifC26Shared() {
	files := []struct{ path, doc, eco string }{
		{"a/Cargo.lock", vCargoFoo, "crates.io"},
		{"b/composer.lock", "{\"packages\":[{\"name\":\"foo\",\"version\":\"1.0\"}]}", "Packagist"},
		{"c/Pipfile.lock", "{\"default\":{\"foo\":{\"version\":\"==1.0\"}}}", "PyPI"},
	}
	first := zzsym.Choice("first", len(files))
	n := 2 + zzsym.Choice("files", 2)
	files = append(files[first:len(files):len(files)], files[:first]...)[:n]
	cfg := "ignore: []\nextra-databases:\n"
	var common []string
	k := zzsym.Choice("dbs", 5)
	odd := zzsym.Choice("odd", k+1)
	for i := range k {
		if i == odd-1 {
			cfg += "  - url: \"https://example.com/x\"\n    type: nonsense\n"

			continue
		}
		id := "D-" + vItoa(i)
		o := vOSV{id: id}
		for _, f := range files {
			o.affected = append(o.affected, vAff{eco: f.eco, name: "foo", versions: []string{"1.0"}})
		}
		vPutDB("db"+vItoa(i), o)
		cfg += "  - url: file:/db" + vItoa(i) + "\n"
		common = append(common, id)
	}
	var args []string
	if zzsym.Flag("given") {
		zzsym.PutFile("c.yml", cfg)
		args = append(args, "--config=c.yml")
	} else {
		for _, f := range files {
			zzsym.PutFile(f.path[:1]+"/.osv-detector.yml", cfg)
		}
	}
	asked := map[string]int{}
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		for _, f := range files {
			if strings.Contains(r.URL, "/"+f.eco+"/") {
				asked[f.eco]++

				return zzsym.Resp{Status: 200, Body: zzsym.MakeZip([]zzsym.ZipEntry{{Name: "x.json", Data: vSimple("E-"+f.eco, f.eco, "foo").vJSON()}})}
			}
		}

		return zzsym.Resp{Status: 404}
	})
	for _, f := range files {
		zzsym.PutFile(f.path, f.doc)
		args = append(args, f.path)
	}
	_, d := vRunJSON(args...)
	for i, f := range files {
		want := append(append([]string{}, common...), "E-"+f.eco)
		sort.Strings(want)
		zzsym.Assert(vFoundIDs(d, i) == strings.Join(want, ","), "each lockfile is checked against the databases of the config and those of its own ecosystems")
		zzsym.Assert(asked[f.eco] == 1, "each database is loaded once")
	}
	zzsym.Observe(vShow(d))
}

// databases that cannot be loaded leave every lockfile with its own others
func verifC26Failed() {
	vPutDB("d1", vSimple("V-1", "crates.io", "foo"))
	vPutDB("d2", vSimple("V-2", "crates.io", "foo"))
	s := &vServer{base: "https://example.com/v1", vulns: func(vQuery) []string { return []string{"V-3"} }}
	s.details = func(id string) string { return vSimple(id, "crates.io", "foo").vJSON() }
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		if strings.HasPrefix(r.URL, s.base) {
			return s.answer(r)
		}

		return zzsym.Resp{Status: 404}
	})
	offline := zzsym.Flag("offline")
	failing, odd := false, false
	var args, want []string
	for _, l := range []string{"a", "b"} {
		zzsym.PutFile(l+"/Cargo.lock", vCargoFoo)
		conf, ids := "", ""
		for range zzsym.Choice("dbs", 3) {
			switch zzsym.Choice("db", 6) {
			case 0:
				conf += "  - url: file:/d1\n"
				ids = vPlus(ids, "V-1")
			case 1:
				conf += "  - url: file:/d2\n"
				ids = vPlus(ids, "V-2")
			case 2:
				conf += "  - url: https://example.com/v1\n"
				if offline {
					failing = true
				} else {
					ids = vPlus(ids, "V-3")
				}
			case 3:
				conf += "  - url: file:/missing\n"
				failing = true
			case 4:
				conf += "  - url: https://example.com/none.zip\n"
				failing = true
			case 5:
				conf += "  - url: not-a-url\n    type: api\n"
				odd = true
			}
		}
		if conf != "" {
			zzsym.PutFile(l+"/.osv-detector.yml", "extra-databases:\n"+conf)
		}
		args = append(args, l+"/Cargo.lock")
		want = append(want, ids)
	}
	if offline {
		args = append([]string{"--offline"}, args...)
	}
	out, d := vRunJSON(append([]string{"--use-dbs=false"}, args...)...)
	found := false
	for i, w := range want {
		zzsym.Assert(vFoundIDs(d, i) == w, "each lockfile is checked against its own databases that can be loaded, and no others")
		found = found || w != ""
	}
	switch {
	case failing:
		zzsym.Assert(out.code == 127, "a database that cannot be loaded gives 127")
	case odd: // loaded, but cannot be asked
		zzsym.Assert(out.code != 0, "a database that cannot be asked is never a success")
	case found:
		zzsym.Assert(out.code == 1, "findings give 1")
	default:
		zzsym.Assert(out.code == 0, "no findings give 0")
	}
	zzsym.Observe(vItoa(out.code) + vShow(d))
}

// vPlus adds an id to a sorted list.
func vPlus(ids, id string) string {
	l := []string{}
	if ids != "" {
		l = strings.Split(ids, ",")
	}
	for _, x := range l {
		if x == id {
			return ids
		}
	}
	l = append(l, id)
	sort.Strings(l)

	return strings.Join(l, ",")
}
