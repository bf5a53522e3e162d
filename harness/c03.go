package main

import (
	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/zzsym"
	"github.com/g-rath/osv-detector/pkg/database"
)

var _ = zzsym.Reg("verifC03Check", verifC03Check)
var _ = zzsym.Reg("verifC03Run", verifC03Run)
var _ = zzsym.Reg("verifC03Same", verifC03Same)
var _ = zzsym.Reg("verifC03Ecos", verifC03Ecos)
var _ = zzsym.Reg("verifC04Filter", verifC04Filter)
var _ = zzsym.Reg("verifC04Alone", verifC04Alone)

func vVulnIDs(vs database.Vulnerabilities) []vID {
	var ids []vID
	for _, v := range vs {
		ids = append(ids, vID{ID: v.ID})
	}

	return ids
}

// every package gets exactly the advisories that are in the database, not withdrawn, and cover it
func verifC03Check() {
	names := []string{"foo", "bar"}
	na := 1 + zzsym.Choice("advisories", 2+zzsym.Tier())
	var osvs []vOSV
	type fact struct {
		lo, hi []vVer
		name   []string
		gone   bool
	}
	var facts []fact
	for i := range na {
		o := vOSV{id: "OSV-" + vItoa(i+1), withdrawn: zzsym.Flag("withdrawn")}
		f := fact{gone: o.withdrawn}
		entries := 1 + zzsym.Choice("entries", 2)
		if na == 1 && zzsym.Flag("repo") { // an entry without a package before the others
			o.affected = append(o.affected, vAff{ranges: []vRange{{"GIT", []vEvent{{"introduced", "0"}}}}})
		}
		for range entries {
			n := names[zzsym.Choice("name", 2)]
			lo, hi := vVersion("lo", false), vVersion("hi", false)
			zzsym.Assume(lo.n < hi.n)
			o.affected = append(o.affected, vAff{eco: "npm", name: n, ranges: []vRange{{"SEMVER", []vEvent{{"introduced", lo.s}, {"fixed", hi.s}}}}})
			f.lo, f.hi, f.name = append(f.lo, lo), append(f.hi, hi), append(f.name, n)
		}
		osvs = append(osvs, o)
		facts = append(facts, f)
	}
	var pkgs []internal.PackageDetails
	var vers []vVer
	np := 1 + zzsym.Choice("packages", 3)
	var used []string
	for i := range np {
		v := vVersion("v", false)
		n := "foo"
		if i == 1 {
			n = "bar"
		}
		eco := internal.Ecosystem("npm")
		if i == 2 {
			// the same name, and maybe the same version, elsewhere
			eco = internal.Ecosystem(zzsym.Pick("eco", "npm", "Hex"))
		}
		pkgs = append(pkgs, internal.PackageDetails{Name: n, Version: v.s, Ecosystem: eco, CompareAs: "npm"})
		vers = append(vers, v)
		used = append(used, n)
	}
	if np == 3 && pkgs[2].Ecosystem != "npm" && zzsym.Flag("first") {
		pkgs[0], pkgs[2], vers[0], vers[2] = pkgs[2], pkgs[0], vers[2], vers[0]
	}
	if np > 1 {
		used = nil
	}
	db := vDirDB(used, osvs...)
	res := vCheck(db, pkgs...)
	for i := range res {
		ids := vVulnIDs(res[i])
		total := 0
		for j, f := range facts {
			want := false
			for k := range f.name {
				if f.name[k] == pkgs[i].Name && pkgs[i].Ecosystem == "npm" {
					want = zzsym.Or(want, zzsym.And(f.lo[k].n <= vers[i].n, vers[i].n < f.hi[k].n))
				}
			}
			if f.gone {
				want = false
			}
			got := vHasID(ids, osvs[j].id)
			zzsym.Assert(got == want, "package "+vItoa(i)+" gets exactly the live advisories covering it")
			if want {
				total++
			}
		}
		zzsym.Assert(len(ids) == total, "no advisory is listed twice or made up")
		zzsym.Observe(vIDs(ids))
	}
}

// the same through the command line, for a directory database and an archive
func verifC03Run() {
	v := vVersion("v", false)
	lo, hi := vVersion("lo", false), vVersion("hi", false)
	zzsym.Assume(lo.n < hi.n)
	o := vOSV{id: "OSV-1", withdrawn: zzsym.Flag("withdrawn"), affected: []vAff{{eco: "crates.io", name: "foo", ranges: []vRange{{"SEMVER", []vEvent{{"introduced", lo.s}, {"fixed", hi.s}}}}}}}
	o2 := vSimple("OSV-2", "crates.io", "other")
	lock := "[[package]]\nname = \"foo\"\nversion = \"" + v.s + "\"\n"
	np := 1
	if zzsym.Flag("two") {
		np = 2
		lock += "\n[[package]]\nname = \"other\"\nversion = \"1.0\"\n"
	}
	switch zzsym.Choice("before", 4) { // entries for other things come first
	case 1:
		o.affected = append([]vAff{{ranges: []vRange{{"GIT", []vEvent{{"introduced", "0"}}}}}}, o.affected...)
	case 2:
		o.affected = append([]vAff{{eco: "crates.io", name: "third", versions: []string{v.s}}}, o.affected...)
	case 3:
		o.affected = append([]vAff{{eco: "Go", name: "foo", versions: []string{v.s}}}, o.affected...)
	}
	zzsym.PutFile("Cargo.lock", lock)
	args := []string{"--use-dbs=false", "Cargo.lock"}
	if zzsym.Flag("zip") {
		z := zzsym.MakeZip([]zzsym.ZipEntry{{Name: "a.json", Data: o.vJSON()}, {Name: "b.json", Data: o2.vJSON()}})
		zzsym.Network(func(r zzsym.Req) zzsym.Resp {
			if r.URL == "https://osv-vulnerabilities.storage.googleapis.com/crates.io/all.zip" {
				return zzsym.Resp{Status: 200, Body: z}
			}

			return zzsym.Resp{Status: 404}
		})
		args = args[1:]
	} else {
		vPutDB("db", o, o2)
		vConfig(".osv-detector.yml", nil, "db")
	}
	out, d := vRunJSON(args...)
	if len(d.Results) != 1 || len(d.Results[0].Packages) != np {
		zzsym.Assert(false, "all packages are reported")

		return
	}
	ps := d.Results[0].Packages
	want := zzsym.And(!o.withdrawn, zzsym.And(lo.n <= v.n, v.n < hi.n))
	zzsym.Assert(ps[0].Name == "foo" && ps[np-1].Name == []string{"foo", "other"}[np-1], "packages are listed by name")
	zzsym.Assert(vHasID(ps[0].Vulnerabilities, "OSV-1") == want, "a live advisory covering the package is reported, any other is not")
	zzsym.Assert(!vHasID(ps[0].Vulnerabilities, "OSV-2"), "an advisory is reported against its own package only")
	if np == 2 {
		zzsym.Assert(vIDs(ps[1].Vulnerabilities) == "OSV-2", "the other package gets its own advisory")
		want = true
	}
	zzsym.Assert((out.code == 1) == want, "vulnerabilities make the exit code 1")
	zzsym.Observe(vShow(d))
}

// loading only the advisories for the packages at hand does not change any result
func verifC04Filter() {
	n := 1 + zzsym.Choice("advisories", 2)
	var osvs []vOSV
	for i := range n {
		o := vOSV{id: "OSV-" + vItoa(i+1)}
		entries := 1
		if n == 1 || zzsym.Tier() > 0 {
			entries += zzsym.Choice("entries", 2)
		}
		if n == 1 && zzsym.Flag("repo") {
			o.affected = append(o.affected, vAff{ranges: []vRange{{"GIT", []vEvent{{"introduced", "0"}}}}})
		}
		for range entries {
			eco := zzsym.Pick("eco", "PyPI", "npm")
			name := zzsym.StrUpTo("name", 1, 2, "aA_-")
			o.affected = append(o.affected, vAff{eco: eco, name: name, versions: []string{"1.0"}})
		}
		osvs = append(osvs, o)
	}
	full := vDirDB(nil, osvs...)
	p1 := zzsym.Str("p1", 1+zzsym.Choice("p1.len", 2), "aA-")
	p2 := "zz"
	names := []string{p2, p1}
	switch zzsym.Choice("names", 3) {
	case 1:
		names = []string{p1, p2}
	case 2:
		names = []string{p1}
	}
	part := vDirDB(names, osvs...)
	for _, eco := range []internal.Ecosystem{"PyPI", "npm"} {
		pkgs := []internal.PackageDetails{{Name: p1, Version: "1.0", Ecosystem: eco, CompareAs: "npm"}, {Name: p2, Version: "1.0", Ecosystem: eco, CompareAs: "npm"}}
		pkgs = pkgs[:len(names)]
		a, b := vCheck(full, pkgs...), vCheck(part, pkgs...)
		for i := range a {
			x, y := vVulnIDs(a[i]), vVulnIDs(b[i])
			zzsym.Assert(vIDs(x) == vIDs(y), "restricting the database to the scanned names leaves every result as it was")
			zzsym.Observe(vIDs(x))
		}
	}
}

// scanning files together gives each the result it gets alone
func verifC04Alone() {
	v1, v2 := vVersion("v1", false), vVersion("v2", false)
	fix := vVersion("fix", false)
	n2 := zzsym.Pick("n2", "foo", "Bar.baz")
	aff := []vAff{{eco: "crates.io", name: "foo", ranges: []vRange{{"SEMVER", []vEvent{{"introduced", "0"}, {"fixed", fix.s}}}}}}
	if zzsym.Flag("both") {
		aff = append(aff, vAff{eco: "PyPI", name: n2, ranges: []vRange{{"ECOSYSTEM", []vEvent{{"introduced", fix.s}}}}})
	}
	o1 := vOSV{id: "OSV-1", affected: aff}
	o2 := vOSV{id: "OSV-2", affected: []vAff{{eco: "PyPI", name: "bar_baz", versions: []string{v2.s}}}}
	zips := map[string]string{}
	zips["crates.io"] = zzsym.MakeZip([]zzsym.ZipEntry{{Name: "a.json", Data: o1.vJSON()}})
	zips["PyPI"] = zzsym.MakeZip([]zzsym.ZipEntry{{Name: "a.json", Data: o2.vJSON()}})
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		for k, z := range zips {
			if r.URL == "https://osv-vulnerabilities.storage.googleapis.com/"+k+"/all.zip" {
				return zzsym.Resp{Status: 200, Body: z}
			}
		}

		return zzsym.Resp{Status: 404}
	})
	zzsym.PutFile("a/Cargo.lock", "[[package]]\nname = \"foo\"\nversion = \""+v1.s+"\"\n")
	zzsym.PutFile("b/poetry.lock", "[[package]]\nname = \"foo\"\nversion = \""+v2.s+"\"\n\n[[package]]\nname = \"bar-baz\"\nversion = \""+v2.s+"\"\n")
	var args []string
	switch zzsym.Choice("config", 4) {
	case 1:
		args = append(args, "--no-config")
	case 2:
		vConfig("c.yml", []string{"OSV-2"})
		args = append(args, "--config=c.yml")
	case 3:
		vConfig("b/.osv-detector.yml", []string{"OSV-2"})
	}
	if zzsym.Flag("noignores") {
		args = append(args, "--no-config-ignores")
	}
	x, dx := vRunJSON(append(args, "a/Cargo.lock")...)
	y, dy := vRunJSON(append(args, "b/poetry.lock")...)
	both := []string{"a/Cargo.lock", "b/poetry.lock"}
	if zzsym.Flag("swap") {
		both = []string{"b/poetry.lock", "a/Cargo.lock"}
		dx, dy = dy, dx
	}
	z, dz := vRunJSON(append(args, both...)...)
	zzsym.Assert(vShow(dx)+vShow(dy) == vShow(dz), "files scanned together get the results they get alone")
	zzsym.Assert(z.code == max(x.code, y.code), "the exit code of a joint scan is the worse of the two")
	zzsym.Observe(vShow(dz))
}

// advisories that share an id are still all there
func verifC03Same() {
	type fact struct {
		id, name string
		v        vVer
		gone     bool
	}
	var fs []fact
	var osvs []vOSV
	for range 2 + zzsym.Tier() {
		f := fact{"V-" + zzsym.Str("id", 1, "ab"), zzsym.Pick("name", "foo", "bar"), vVersion("bad", false), zzsym.Flag("withdrawn")}
		fs = append(fs, f)
		osvs = append(osvs, vOSV{id: f.id, withdrawn: f.gone, affected: []vAff{{eco: "npm", name: f.name, versions: []string{f.v.s}}}})
	}
	pkgs := []internal.PackageDetails{}
	var vs []vVer
	for _, n := range []string{"foo", "bar"} {
		v := vVersion("v", false)
		vs = append(vs, v)
		pkgs = append(pkgs, internal.PackageDetails{Name: n, Version: v.s, Ecosystem: "npm", CompareAs: "npm"})
	}
	res := vCheck(vDirDB(nil, osvs...), pkgs...)
	for i, p := range pkgs {
		for _, id := range []string{"V-a", "V-b"} {
			want := false
			for _, f := range fs {
				want = zzsym.Or(want, zzsym.And(f.id == id, zzsym.And(!f.gone && f.name == p.Name, f.v.s == vs[i].s)))
			}
			got := 0
			for _, v := range res[i] {
				if v.ID == id {
					got++
				}
			}
			zzsym.Assert(got <= 1 && (got == 1) == want, "an advisory is reported when any of those with its id is live and covers the package")
		}
		zzsym.Observe(vIDs(vVulnIDs(res[i])))
	}
}

// the same name and version in several ecosystems
func verifC03Ecos() {
	ecos := []string{"npm", "PyPI", "crates.io"}
	fix := vVersion("fix", false)
	var osvs []vOSV
	live := map[string]bool{}
	for _, e := range ecos {
		o := vSimple("V-"+e, e, "foo")
		o.affected[0].ranges[0].events = append(o.affected[0].ranges[0].events, vEvent{"fixed", fix.s})
		live[e] = zzsym.Flag("live")
		o.withdrawn = !live[e]
		osvs = append(osvs, o)
	}
	vPutDB("db", osvs...)
	vConfig("c.yml", nil, "db")
	v := vVersion("v", false)
	args := []string{"--config=c.yml", "--use-dbs=false", "--parse-as=csv-row"}
	n := 2 + zzsym.Choice("rows", 2)
	for range n {
		args = append(args, ecos[zzsym.Choice("eco", 3)]+",,foo,"+v.s)
	}
	_, d := vRunJSON(args...)
	if len(d.Results) != 1 || len(d.Results[0].Packages) != n {
		zzsym.Assert(false, "all packages are reported")

		return
	}
	for _, p := range d.Results[0].Packages {
		want := ""
		if live[p.Ecosystem] && v.n < fix.n {
			want = "V-" + p.Ecosystem
		}
		zzsym.Assert(vIDs(p.Vulnerabilities) == want, "a package gets the advisories of its own ecosystem, whatever stands beside it")
	}
	zzsym.Observe(vShow(d))
}
