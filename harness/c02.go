package main

import (
	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC02Eco", verifC02Eco)
var _ = zzsym.Reg("verifC02Name", verifC02Name)
var _ = zzsym.Reg("verifC02PyPI", verifC02PyPI)
var _ = zzsym.Reg("verifC02Version", verifC02Version)

// the ecosystem, with and without a release suffix on either side
func verifC02Eco() {
	bases := []string{"Debian", "Alpine", "npm", "debian", "Debian-foo"}
	aBase := bases[zzsym.Choice("abase", len(bases))]
	pBase := bases[zzsym.Choice("pbase", 3)]
	aSuf, pSuf := "", ""
	if zzsym.Flag("asuf?") {
		aSuf = zzsym.StrUpTo("asuf", 1, 2+zzsym.Tier(), "17v.:")
	}
	if zzsym.Flag("psuf?") {
		pSuf = zzsym.StrUpTo("psuf", 1, 2+zzsym.Tier(), "17v.:")
	}
	eco := func(b, s string) string {
		if s == "" {
			return b
		}

		return b + ":" + s
	}
	name := zzsym.Pick("name", "foo", "bar")
	vPutDB("db", vSimple("OSV-1", eco(aBase, aSuf), name), vSimple("OSV-2", "PyPI", "foo"))
	vConfig("c.yml", nil, "db")
	out, d := vRunJSON("--config=c.yml", "--use-dbs=false", "--parse-as=csv-row", eco(pBase, pSuf)+",npm,foo,1.0")
	want := zzsym.And(aBase == pBase && name == "foo", zzsym.Or(aSuf == "" || pSuf == "", aSuf == pSuf))
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 1 {
		zzsym.Assert(false, "the package given is reported")

		return
	}
	p := d.Results[0].Packages[0]
	zzsym.Assert(vHasID(p.Vulnerabilities, "OSV-1") == want, "an advisory applies exactly when the ecosystems agree (releases only when both name one) and the name is the same")
	zzsym.Assert(!vHasID(p.Vulnerabilities, "OSV-2"), "an advisory for another ecosystem never applies")
	zzsym.Assert((out.code == 1) == want, "the exit code follows")
	zzsym.Observe(vShow(d))
}

// names are compared exactly outside PyPI
func verifC02Name() {
	eco := zzsym.Pick("eco", "npm", "Go", "Maven", "crates.io")
	n := 1 + zzsym.Choice("n", 3)
	a := zzsym.Str("adv", n, "aA-_./@:")
	p := a
	if zzsym.Flag("other") {
		p = zzsym.StrUpTo("pkg", 1, 3, "aA-_./@:")
	}
	db := vDirDB(nil, vSimple("OSV-1", eco, a))
	res := vCheck(db, internal.PackageDetails{Name: p, Version: "1.0", Ecosystem: internal.Ecosystem(eco), CompareAs: internal.Ecosystem(eco)})
	zzsym.Assert((len(res[0]) == 1) == (a == p), "outside PyPI an advisory applies exactly when the names are identical")
	zzsym.Observe(vItoa(len(res[0])))
}

// vPEP503 normalises by the definition: runs of - _ . become one -, letters lower case.
func vPEP503(s string) string {
	var out []byte
	sep := false
	for i := range len(s) {
		c := s[i]
		if c == '-' || c == '_' || c == '.' {
			if !sep {
				out = append(out, '-')
			}
			sep = true

			continue
		}
		sep = false
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		out = append(out, c)
	}

	return string(out)
}

func verifC02PyPI() {
	a := zzsym.StrUpTo("adv", 1, 4+zzsym.Tier(), "aB-_.")
	norm := vPEP503(a)
	p := norm
	if zzsym.Flag("other") {
		p = zzsym.StrUpTo("pkg", 1, 3, "ab-")
	}
	suffix := zzsym.Pick("suffix", "", ":1")
	db := vDirDB(nil, vSimple("OSV-1", "PyPI"+suffix, a))
	res := vCheck(db, internal.PackageDetails{Name: p, Version: "1.0", Ecosystem: "PyPI", CompareAs: "PyPI"})
	zzsym.Assert((len(res[0]) == 1) == (p == norm), "a PyPI advisory applies exactly to the package with its normalised name")
	zzsym.Observe(vItoa(len(res[0])))
}

// a package without a version is affected by every advisory with versions or ranges
func verifC02Version() {
	aff := vAff{eco: "npm", name: "foo"}
	some := false
	if zzsym.Flag("versions") {
		some = true
		aff.versions = []string{zzsym.Pick("listed", "1.0", "2.0")}
	}
	switch zzsym.Choice("ranges", 4) {
	case 1:
		some = true
		aff.ranges = []vRange{{"SEMVER", []vEvent{{"introduced", "3.0"}, {"fixed", "4.0"}}}}
	case 2:
		some = true
		aff.ranges = []vRange{{"GIT", []vEvent{{"introduced", "0"}}}}
	case 3:
		some = true
		aff.ranges = []vRange{{"GIT", []vEvent{{"introduced", "0"}}}, {"ECOSYSTEM", []vEvent{{"introduced", "0"}, {"last_affected", "0.5"}}}}
	}
	v := zzsym.Pick("v", "", "1.0", "3.5", "0.4")
	o := vOSV{id: "OSV-1", affected: []vAff{{eco: "npm", name: "bar", versions: []string{"9"}}, aff}}
	vPutDB("db", o)
	vConfig("c.yml", nil, "db")
	_, d := vRunJSON("--config=c.yml", "--use-dbs=false", "--parse-as=csv-row", "npm,,foo,"+v)
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 1 {
		zzsym.Assert(false, "the package given is reported")

		return
	}
	got := vHasID(d.Results[0].Packages[0].Vulnerabilities, "OSV-1")
	want := some
	if v != "" {
		want = len(aff.versions) > 0 && aff.versions[0] == v
		for _, r := range aff.ranges {
			if r.typ == "SEMVER" && v == "3.5" {
				want = true
			}
			if r.typ == "ECOSYSTEM" && v == "0.4" {
				want = true
			}
		}
	}
	zzsym.Assert(got == want, "a package without a version is affected by every advisory that says anything about it, one with a version only by those covering it")
	zzsym.Observe(vShow(d))
}
