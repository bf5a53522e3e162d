package main

import (
	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/zzsym"
	"github.com/g-rath/osv-detector/pkg/database"
)

var _ = zzsym.Reg("verifC01Range", verifC01Range)
var _ = zzsym.Reg("verifC01Multi", verifC01Multi)

func vDirDB(pkgNames []string, osvs ...vOSV) database.DB {
	for i, o := range osvs {
		zzsym.PutFile("db/"+vItoa(i)+".json", o.vJSON())
	}
	db, err := database.NewDirDB(database.Config{Name: "db", Type: "dir", URL: "file:/db"}, false, pkgNames)
	if err != nil {
		zzsym.Assert(false, "the local database loads")
	}

	return db
}

func vCheck(db database.DB, pkgs ...internal.PackageDetails) []database.Vulnerabilities {
	res, err := db.Check(pkgs)
	zzsym.Assert(err == nil, "checking against a local database does not fail")
	zzsym.Assert(len(res) == len(pkgs), "there is one result per package")

	return res
}

type vEv struct {
	kind string
	ver  vVer
	zero bool
}

// vRangeAffects is the OSV evaluation rule: the version is affected when some
// introduced event at or before it is not followed by a fix at or before it or
// by a last-affected before it.
func vRangeAffects(v vVer, evs []vEv) bool {
	res := false
	for _, i := range evs {
		if i.kind != "introduced" {
			continue
		}
		ok := zzsym.Or(i.zero, i.ver.n <= v.n)
		for _, j := range evs {
			after := zzsym.Or(i.zero, j.ver.n > i.ver.n)
			switch j.kind {
			case "fixed":
				ok = zzsym.And(ok, !zzsym.And(after, j.ver.n <= v.n))
			case "last_affected":
				after = zzsym.Or(i.zero, j.ver.n >= i.ver.n)
				ok = zzsym.And(ok, !zzsym.And(after, j.ver.n < v.n))
			}
		}
		res = zzsym.Or(res, ok)
	}

	return res
}

func vEvents(name string, n int, wide bool) ([]vEv, []vEvent) {
	var evs []vEv
	var out []vEvent
	zeroSeen := false
	for i := range n {
		kind := zzsym.Pick(name+".kind", "introduced", "fixed", "last_affected")
		e := vEv{kind: kind}
		if kind == "introduced" && !zeroSeen && zzsym.Flag(name+".zero") {
			zeroSeen = true
			e.zero = true
			e.ver = vVer{"0", -100}
		} else {
			e.ver = vVersion(name+".v", wide && i == 0)
		}
		for _, p := range evs {
			// two events at one version only make sense for "exactly this version"
			same := p.ver.n == e.ver.n
			if p.kind == "introduced" && kind == "last_affected" {
				same = false
			}
			zzsym.Assume(!same)
		}
		evs = append(evs, e)
		out = append(out, vEvent{kind, e.ver.s})
	}

	return evs, out
}

func verifC01Range() {
	n := 1 + zzsym.Choice("events", 3+zzsym.Tier())
	wide := n <= 2+zzsym.Tier() // spellings vary in the short ranges
	evs, out := vEvents("e", n, wide)
	v := vVersion("v", wide)
	typ := zzsym.Pick("type", "SEMVER", "ECOSYSTEM")
	eco := zzsym.Pick("eco", "npm", "acme")
	o := vOSV{id: "OSV-1", affected: []vAff{{eco: eco, name: "foo", ranges: []vRange{{typ, out}}}}}
	db := vDirDB(nil, o)
	pkg := internal.PackageDetails{Name: "foo", Version: v.s, Ecosystem: internal.Ecosystem(eco), CompareAs: "npm"}
	res := vCheck(db, pkg)
	want := vRangeAffects(v, evs)
	got := len(res[0]) == 1
	zzsym.Assert(got == want, "a version is affected exactly when the range's events say so")
	again := vCheck(db, pkg)
	zzsym.Assert(len(again[0]) == len(res[0]), "asking again gives the same answer")
	if got {
		zzsym.Reach("affected")
		zzsym.Observe("affected")
	} else {
		zzsym.Reach("unaffected")
		zzsym.Observe("unaffected")
	}
}

// several ranges of different types, version lists and affected entries
func verifC01Multi() {
	var affs []vAff
	want := false
	na := 1 + zzsym.Choice("affected", 2)
	v := vVersion("v", na == 1)
	for a := range na {
		mine := zzsym.Pick("name", "foo", "bar") == "foo"
		aff := vAff{eco: "npm", name: "bar"}
		if mine {
			aff.name = "foo"
		}
		hit := false
		nv := zzsym.Choice("versions", 3)
		for i := range nv {
			lv := vVersion("list", na == 1 && i == 0)
			aff.versions = append(aff.versions, lv.s)
			hit = zzsym.Or(hit, zzsym.And(lv.s == v.s, true))
		}
		nr := zzsym.Choice("ranges", 3)
		if a > 0 && zzsym.Tier() == 0 && nr > 1 {
			nr = 1
		}
		for range nr {
			typ := zzsym.Pick("type", "SEMVER", "GIT", "ECOSYSTEM")
			i := vVersion("intro", false)
			f := vVersion("fix", false)
			zzsym.Assume(i.n < f.n)
			if typ == "GIT" {
				aff.ranges = append(aff.ranges, vRange{typ, []vEvent{{"introduced", "0"}, {"fixed", "deadbeef"}}})

				continue
			}
			aff.ranges = append(aff.ranges, vRange{typ, []vEvent{{"introduced", i.s}, {"fixed", f.s}}})
			hit = zzsym.Or(hit, zzsym.And(i.n <= v.n, v.n < f.n))
		}
		if mine {
			want = zzsym.Or(want, hit)
		}
		affs = append(affs, aff)
	}
	db := vDirDB(nil, vOSV{id: "OSV-1", affected: affs})
	res := vCheck(db, internal.PackageDetails{Name: "foo", Version: v.s, Ecosystem: "npm", CompareAs: "npm"})
	got := len(res[0]) == 1
	zzsym.Assert(len(res[0]) <= 1, "an advisory is reported once per package")
	zzsym.Assert(got == want, "a version is affected exactly when some range or version list of some matching entry says so")
	zzsym.Observe(vItoa(len(res[0])))
}
