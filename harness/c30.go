package main

import (
	"sort"
	"strings"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/zzsym"
	"github.com/g-rath/osv-detector/pkg/database"
	"github.com/g-rath/osv-detector/pkg/lockfile"
)

var _ = zzsym.Reg("verifC30Prefer", verifC30Prefer)
var _ = zzsym.Reg("verifC30List", verifC30List)
var _ = zzsym.Reg("verifC30Kinds", verifC30Kinds)
var _ = zzsym.Reg("verifC31Loaded", verifC31Loaded)
var _ = zzsym.Reg("verifC31Date", verifC31Date)
var _ = zzsym.Reg("verifC31Memory", verifC31Memory)
var _ = zzsym.Reg("verifC31Unique", verifC31Unique)
var _ = zzsym.Reg("verifC31Ecosystems", verifC31Ecosystems)

// what OSV_DETECTOR_PREFER_API changes, and what it does not
func verifC30Prefer() {
	prefer := false
	switch zzsym.Choice("set", 4) {
	case 1:
		prefer = true
		zzsym.Env("OSV_DETECTOR_PREFER_API", "true")
	case 2:
		v := zzsym.StrUpTo("value", 0, 5, "truefalsTRUE01 ")
		prefer = v == "true"
		zzsym.Env("OSV_DETECTOR_PREFER_API", v)
	case 3:
		zzsym.Env(zzsym.Pick("other", "OSV_DETECTOR_USE_API", "PREFER_API"), "true")
	}
	api, dbs := prefer, !prefer
	var args []string
	switch zzsym.Choice("use-api", 3) {
	case 1:
		args = append(args, "--use-api")
		api = true
	case 2:
		args = append(args, "--use-api=false")
		api = false
	}
	switch zzsym.Choice("use-dbs", 3) {
	case 1:
		args = append(args, "--use-dbs")
		dbs = true
	case 2:
		args = append(args, "--use-dbs=false")
		dbs = false
	}
	zzsym.PutFile("p/Cargo.lock", vCargoFoo)
	var want []string
	if zzsym.Flag("config") {
		vPutDB("db", vSimple("V-own", "crates.io", "foo"))
		vConfig("p/.osv-detector.yml", nil, "db")
		want = append(want, "V-own")
	}
	s := &vServer{vulns: func(vQuery) []string { return []string{"V-api"} }}
	s.details = func(id string) string { return vSimple(id, "crates.io", "foo").vJSON() }
	zip := zzsym.MakeZip([]zzsym.ZipEntry{{Name: "x.json", Data: vSimple("V-zip", "crates.io", "foo").vJSON()}})
	zips, apis := 0, 0
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		if strings.HasPrefix(r.URL, vAPI+"/") {
			apis++

			return s.answer(r)
		}
		zips++
		if r.URL == "https://osv-vulnerabilities.storage.googleapis.com/crates.io/all.zip" {
			return zzsym.Resp{Status: 200, Body: zip}
		}

		return zzsym.Resp{Status: 404}
	})
	if api {
		want = append(want, "V-api")
	}
	if dbs {
		want = append(want, "V-zip")
	}
	sort.Strings(want)
	out, d := vRunJSON(append(args, "p/Cargo.lock")...)
	zzsym.Assert(vFoundIDs(d, 0) == strings.Join(want, ","), "the databases used are those of the flags, and of the environment where there are none")
	zzsym.Assert((apis > 0) == api, "the API is asked exactly when the flags, or else the environment, say so")
	zzsym.Assert((zips > 0) == dbs, "databases are downloaded exactly when the flags, or else the environment, say so")
	zzsym.Assert((out.code == 1) == (len(want) > 0) && out.code <= 1, "findings give 1, none 0")
	zzsym.Observe(vItoa(out.code) + vShow(d))
}

// commands that only list use neither configs nor databases nor the network, and change nothing
func verifC30List() {
	name, ver := zzsym.Str("name", 2, "abcdefghijklmnopqrstuvwxyz0123456789_-"), "1."+zzsym.Str("version", 1, "0123456789")
	zzsym.PutFile("p/Cargo.lock", vLockOf(name, ver))
	zzsym.PutFile("q/go.mod", "module m\n\nrequire x.y/foo v1.0.0\n")
	vPutDB("db", vSimple("V-1", "crates.io", "foo"))
	confs := map[string]string{}
	for _, n := range []string{"p/.osv-detector.yml", "given.yml"} {
		switch zzsym.Choice("config", 4) {
		case 1:
			vConfig(n, []string{"X-1"}, "db")
		case 2:
			zzsym.PutFile(n, "ignore: {")
		case 3:
			zzsym.PutFile(n, "extra-databases:\n  - url: https://example.com/a.zip\n  - url: https://example.com/api\n  - url: file:/nowhere\n  - url: ''\n    type: odd\n")
		}
		confs[n], _ = zzsym.GetFile(n)
	}
	asked := 0
	zzsym.Network(func(zzsym.Req) zzsym.Resp {
		asked++

		return zzsym.Resp{Status: 404}
	})
	var args []string
	for _, a := range []string{"--config=given.yml", "--offline", "--update-config-ignores", "--use-api"} {
		if zzsym.Flag("flag") {
			args = append(args, a)
		}
	}
	js := zzsym.Flag("json")
	if js {
		args = append(args, "--json")
	}
	what := zzsym.Choice("what", 3)
	args = append(args, []string{"--list-packages", "--list-ecosystems", "--version"}[what])
	paths := [][]string{{"p"}, {"p/Cargo.lock", "q/go.mod"}, {"q", "p"}}[zzsym.Choice("paths", 3)]
	if what > 0 && zzsym.Flag("none") {
		paths = nil
	}
	out := vRun(append(args, paths...)...)
	zzsym.Assert(asked == 0, "listing does not use the network")
	zzsym.Assert(out.code == 0, "listing always succeeds when its input can be read")
	for n, c := range confs {
		now, _ := zzsym.GetFile(n)
		zzsym.Assert(now == c, "listing changes no config")
	}
	zzsym.Assert(len(zzsym.ListDir("p"))+len(zzsym.ListDir("q")) <= 3, "listing creates no files")
	text := out.stdout
	if js {
		text = out.stderr
	} else {
		zzsym.Assert(out.stderr == "", "listing has no errors")
	}
	switch what {
	case 0:
		want := ""
		for _, p := range paths {
			if p[0] == 'p' {
				want += "p/Cargo.lock: found 1 package\n"
				if !js {
					want += "  crates.io: " + name + "@" + ver + "\n"
				}
			} else {
				want += "q/go.mod: found 1 package\n"
				if !js {
					want += "  Go: x.y/foo@1.0.0\n"
				}
			}
		}
		got := ""
		for _, l := range strings.Split(text, "\n") {
			if l != "" {
				got += l + "\n"
			}
		}
		zzsym.Assert(got == want, "the packages of each lockfile are listed and nothing else")
	case 1:
		ecos := map[string]bool{}
		for _, k := range vKinds() {
			ecos[k.eco] = true
		}
		lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
		for _, l := range lines[1:] {
			e := strings.TrimPrefix(l, "  ")
			zzsym.Assert(ecos[e], "every ecosystem listed is that of a lockfile, and is listed once")
			ecos[e] = false
		}
		zzsym.Assert(len(lines) == 12, "the ecosystems of all lockfiles are listed")
	case 2:
		zzsym.Assert(strings.HasPrefix(text, "osv-detector ") && strings.Count(text, "\n") == 1, "the version is printed")
	}
	zzsym.Observe(text)
}

// --parse-as takes the names of all kinds of lockfiles and says so
func verifC30Kinds() {
	ks := vKinds()
	known := []string{"csv-file", "csv-row"}
	for _, k := range ks {
		known = append(known, k.file)
	}
	var as string
	switch zzsym.Choice("as", 3) {
	case 0:
		as = known[zzsym.Choice("kind", len(known))]
	case 1:
		as = zzsym.StrUpTo("any", 1, 4, "acdfilmorstvw.- /")
	case 2:
		k := known[zzsym.Choice("kind", len(known))]
		switch zzsym.Choice("near", 4) {
		case 0:
			as = k + zzsym.Str("x", 1, "ab. /")
		case 1:
			as = zzsym.Str("x", 1, "ab. /") + k
		case 2:
			i := zzsym.Choice("at", len(k))
			as = k[:i] + zzsym.Str("x", 1, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ.-") + k[i+1:]
		case 3:
			i := zzsym.Choice("at", len(k))
			as = k[:i] + k[i+1:]
		}
	}
	ok := false
	for _, k := range known {
		ok = zzsym.Or(ok, as == k)
	}
	zzsym.PutFile("p/x", "")
	zzsym.Network(func(zzsym.Req) zzsym.Resp {
		zzsym.Assert(false, "nothing is downloaded to list packages")

		return zzsym.Resp{Status: 404}
	})
	out := vRun("--list-packages", "--parse-as="+as, "p/x")
	refused := strings.HasPrefix(out.stderr, "Don't know how to parse files as \""+as+"\" - supported values are:\n")
	zzsym.Assert(refused == !ok, "exactly the names of supported kinds are taken")
	if refused {
		zzsym.Assert(out.code == 127, "an unknown kind is an error")
		lines := strings.Split(strings.TrimSuffix(out.stderr, "\n"), "\n")[1:]
		sort.Strings(lines)
		all := make([]string, 0, len(known))
		for _, k := range known {
			all = append(all, "  "+k)
		}
		sort.Strings(all)
		zzsym.Assert(strings.Join(lines, "\n") == strings.Join(all, "\n"), "every supported kind is named once")
		zzsym.Observe(out.stderr)
	}
	zzsym.Observe(vItoa(out.code))
}

// what is said of the databases loaded
func verifC31Loaded() {
	zzsym.PutFile("Cargo.lock", vCargoFoo)
	date := "Mon, 0" + zzsym.Str("day", 1, "123456789") + " Jan 2024 00:00:00 GMT"
	conf := ""
	type vLoaded struct{ name, what string }
	var want []vLoaded
	nets := map[string]string{}
	n := zzsym.Choice("dbs", 3)
	batch := 1 + zzsym.Choice("batch", 3)*500
	for i := range n {
		name := "db " + zzsym.Str("name", 1, "abc%<") + vItoa(i)
		conf += "  - name: \"" + name + "\"\n"
		kind := zzsym.Choice("kind", 3)
		if kind == 2 {
			conf += "    url: https://example.com/" + vItoa(i) + "\n"
			want = append(want, vLoaded{name, " (using batches of " + vItoa(batch) + ")"})

			continue
		}
		m := zzsym.Choice("n", 4+zzsym.Tier())
		var osvs []vOSV
		for j := range m {
			o := vSimple("V-"+vItoa(i)+vItoa(j), "crates.io", "foo")
			if j > 0 {
				switch zzsym.Choice("like", 5) {
				case 1:
					o.withdrawn = true
				case 2:
					o.affected[0].name = "other"
				case 3:
					o.affected = append(o.affected, o.affected[0])
				case 4:
					o.withdrawn, o.affected = true, nil
				}
			}
			osvs = append(osvs, o)
		}
		what := " (" + vItoa(m) + " vulnerabilities, including withdrawn"
		if m == 1 {
			what = " (1 vulnerability, including withdrawn"
		}
		if kind == 0 {
			vPutDB("d"+vItoa(i), osvs...)
			conf += "    url: file:/d" + vItoa(i) + "\n"
			want = append(want, vLoaded{name, what + ")"})

			continue
		}
		var zs []zzsym.ZipEntry
		for j, o := range osvs {
			zs = append(zs, zzsym.ZipEntry{Name: vItoa(j) + ".json", Data: o.vJSON()})
		}
		u := "https://example.com/" + vItoa(i) + ".zip"
		nets[u] = zzsym.MakeZip(zs)
		conf += "    url: " + u + "\n"
		want = append(want, vLoaded{name, what + " - last updated " + date + ")"})
	}
	if n > 0 {
		zzsym.PutFile(".osv-detector.yml", "extra-databases:\n"+conf)
	}
	s := &vServer{vulns: func(vQuery) []string { return nil }}
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		if b, ok := nets[r.URL]; ok {
			return zzsym.Resp{Status: 200, Body: b, Date: date, ETag: "\"a\""}
		}
		s.base = strings.TrimSuffix(r.URL, "/querybatch")

		return s.answer(r)
	})
	out := vRun("--use-dbs=false", "--batch-size="+vItoa(batch), "Cargo.lock")
	text := "Loaded the following OSV databases:\n"
	used := ""
	for _, w := range want {
		text += "  " + w.name + w.what + "\n"
		used += "  Using db " + w.name + w.what + "\n"
	}
	text += "\nCargo.lock: found 1 package\n"
	if n > 0 {
		text += "  Using config at .osv-detector.yml (0 ignores)\n"
	}
	zzsym.Assert(strings.HasPrefix(out.stdout, text+used+"\n"), "each database is named with what was loaded from it")
	zzsym.Observe(out.stdout + out.stderr)
}

// an archive is as old as its download, however it is reached later
func verifC31Date() {
	zzsym.PutFile("Cargo.lock", vCargoFoo)
	zzsym.PutFile(".osv-detector.yml", "extra-databases:\n  - url: https://example.com/a.zip\n    name: db\n")
	dates := []string{"Mon, 01 Jan 2024 00:00:00 GMT", "Tue, 02 Jan 2024 0" + zzsym.Str("hour", 1, "0123456789") + ":00:00 GMT", "Wed, 03 Jan 2024 00:00:00 GMT", "Thu, 04 Jan 2024 00:00:00 GMT"}
	var zips []string
	for i := range 4 {
		var zs []zzsym.ZipEntry
		for j := range i + 1 {
			zs = append(zs, zzsym.ZipEntry{Name: vItoa(j) + ".json", Data: vSimple("V-"+vItoa(j), "crates.io", "foo").vJSON()})
		}
		zips = append(zips, zzsym.MakeZip(zs))
	}
	now, have := 0, -1
	etags := zzsym.Flag("etags")
	var since string
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		since = r.Header.Get("If-Modified-Since")
		p := zzsym.Resp{Status: 200, Body: zips[now], Date: dates[now]}
		tag := "\"v" + vItoa(now) + "\""
		if etags {
			p.ETag = tag
		}
		if m := r.Header.Get("If-None-Match"); (etags && m == tag) || (!etags && since == dates[now]) {
			return zzsym.Resp{Status: 304, Date: "Sun, 31 Dec 2028 00:00:00 GMT"}
		}
		have = now

		return p
	})
	for i := range 3 + zzsym.Tier() {
		args := []string{"--use-dbs=false", "Cargo.lock"}
		if i > 0 {
			if zzsym.Flag("newer") {
				now++
			}
			if zzsym.Flag("offline") {
				args = append([]string{"--offline"}, args...)
			}
		}
		out := vRun(args...)
		word := " vulnerabilities"
		if have == 0 {
			word = " vulnerability"
		}
		zzsym.Assert(strings.HasPrefix(out.stdout, "Loaded the following OSV databases:\n  db ("+vItoa(have+1)+word+", including withdrawn - last updated "+dates[have]+")\n"), "an archive is said to be as old as it is")
		zzsym.Observe(out.stdout)
	}
}

// what a database holds, for those who use it as a library
func verifC31Memory() {
	n := 1 + zzsym.Choice("n", 3+zzsym.Tier())
	var osvs []vOSV
	for range n {
		o := vSimple("V-"+zzsym.Str("id", 1, "abc"), "crates.io", zzsym.Pick("name", "foo", "bar"))
		o.withdrawn = zzsym.Flag("withdrawn")
		if zzsym.Flag("two") {
			o.affected = append(o.affected, vAff{eco: "npm", name: "foo"})
		}
		osvs = append(osvs, o)
	}
	vPutDB("db", osvs...)
	db, err := database.NewDirDB(database.Config{Name: "db", Type: "dir", URL: "file:/db"}, zzsym.Flag("offline"), nil)
	zzsym.Assert(err == nil && db.VulnerabilitiesCount == n, "every advisory is loaded and counted")
	for _, all := range []bool{true, false} {
		got := db.Vulnerabilities(all)
		for _, o := range osvs {
			in := 0
			for _, g := range got {
				if g.ID == o.id {
					in++
				}
			}
			want := false
			for _, p := range osvs {
				want = zzsym.Or(want, zzsym.And(p.id == o.id, all || !p.withdrawn))
			}
			zzsym.Assert(in <= 1, "no advisory is given twice")
			zzsym.Assert((in == 1) == want, "exactly the advisories that were not withdrawn, or all of them, are given")
		}
		for _, g := range got {
			known := false
			for _, o := range osvs {
				known = zzsym.Or(known, zzsym.And(o.id == g.ID, o.withdrawn == (g.Withdrawn != nil)))
			}
			zzsym.Assert(known, "no other advisory is given")
		}
	}
	zzsym.Observe(vItoa(db.VulnerabilitiesCount))
}

// the first of all that are the same vulnerability is kept
func verifC31Unique() {
	n := 1 + zzsym.Choice("n", 3)
	var vs database.Vulnerabilities
	for i := range n {
		v := database.OSV{ID: "V-" + zzsym.Str("id", 1, "abc"), Summary: vItoa(i)}
		for range zzsym.Choice("aliases", 2+zzsym.Tier()) {
			v.Aliases = append(v.Aliases, "V-"+zzsym.Str("alias", 1, "abcd"))
		}
		vs = append(vs, v)
	}
	same := func(a, b database.OSV) bool {
		r := a.ID == b.ID
		for _, x := range a.Aliases {
			r = zzsym.Or(r, x == b.ID)
			for _, y := range b.Aliases {
				r = zzsym.Or(r, x == y)
			}
		}
		for _, x := range b.Aliases {
			r = zzsym.Or(r, x == a.ID)
		}

		return r
	}
	got := vs.Unique()
	at := 0
	for _, v := range vs {
		dup := false
		for _, k := range got[:min(at, len(got))] {
			dup = zzsym.Or(dup, same(k, v))
		}
		zzsym.Assert(at <= len(got), "no vulnerability is left out")
		if dup {
			zzsym.Assert(got[:at].Includes(v), "what is the same vulnerability as one of the list is included in it")

			continue
		}
		zzsym.Assert(!got[:at].Includes(v), "what is another vulnerability than all of the list is not included in it")
		zzsym.Assert(at < len(got) && got[at].Summary == v.Summary && got[at].ID == v.ID, "the first of several advisories for the same vulnerability is kept, in order")
		at++
	}
	zzsym.Assert(at == len(got), "nothing else is kept")
	s := ""
	for _, g := range got {
		s += g.ID + g.Summary + " "
	}
	zzsym.Observe(s)
}

// ecosystems of packages and advisories
func verifC31Ecosystems() {
	n := zzsym.Choice("n", 4+zzsym.Tier())
	var ps lockfile.Packages
	var osv database.OSV
	for range n {
		e := internal.Ecosystem(zzsym.StrUpTo("eco", 0, 2, "abG"))
		ps = append(ps, internal.PackageDetails{Name: "foo", Ecosystem: e})
		osv.Affected = append(osv.Affected, database.Affected{Package: database.Package{Name: "foo", Ecosystem: e}})
	}
	got := ps.Ecosystems()
	for i, g := range got {
		zzsym.Assert(g != "", "a package without an ecosystem adds none")
		if i > 0 {
			zzsym.Assert(got[i-1] < g, "ecosystems are sorted and given once")
		}
		in := false
		for _, p := range ps {
			in = zzsym.Or(in, p.Ecosystem == g)
		}
		zzsym.Assert(in, "only ecosystems of packages are given")
	}
	for _, p := range ps {
		in := p.Ecosystem == ""
		for _, g := range got {
			in = zzsym.Or(in, g == p.Ecosystem)
		}
		zzsym.Assert(in, "the ecosystem of every package is given")
	}
	q := internal.Ecosystem(zzsym.StrUpTo("asked", 0, 2, "abG"))
	want := false
	for _, p := range ps {
		want = zzsym.Or(want, p.Ecosystem == q)
	}
	zzsym.Assert(osv.AffectsEcosystem(q) == want, "an advisory affects exactly the ecosystems it names")
	zzsym.Observe(vItoa(len(got)))
}
