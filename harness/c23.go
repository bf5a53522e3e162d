package main

import (
	"sort"
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC23Rows", verifC23Rows)
var _ = zzsym.Reg("verifC23Field", verifC23Field)
var _ = zzsym.Reg("verifC23Eco", verifC23Eco)
var _ = zzsym.Reg("verifC23Compare", verifC23Compare)

// vCSV writes a field, quoted when that is needed or wanted.
func vCSV(s string, quote bool) string {
	if quote || strings.ContainsAny(s, ",\"\n") {
		return "\"" + strings.ReplaceAll(s, "\"", "\"\"") + "\""
	}

	return s
}

// vRunRows lists rows given as arguments or in a file.
func vRunRows(rows []string) (vOut, vDoc) {
	if zzsym.Flag("file") {
		eol := zzsym.Pick("eol", "\n", "\r\n")
		doc := strings.Join(rows, eol)
		if zzsym.Flag("end") {
			doc += eol
		}
		zzsym.PutFile("p/rows.csv", doc)
		if zzsym.Flag("global") {
			return vRunJSON("--list-packages", "--parse-as=csv-file", "p/rows.csv")
		}

		return vRunJSON("--list-packages", "csv-file:p/rows.csv")
	}

	return vRunJSON(append([]string{"--list-packages", "--parse-as=csv-row"}, rows...)...)
}

// every row is a package, or an error
func verifC23Rows() {
	n := 1 + zzsym.Choice("rows", 2+zzsym.Tier())
	var rows []string
	var ws []vPkg
	bad := false
	extra := zzsym.Pick("extra", "", ",more")
	for i := range n {
		w := vPkg{Name: zzsym.Str("name", 1, "ab") + vItoa(i/2), Version: zzsym.Str("ver", 1, "12") + ".0"}
		if i == 2 {
			w.Version = "1.0"
		}
		kinds := 8
		if n > 2 {
			kinds = 3
		}
		switch zzsym.Choice("kind", kinds) {
		case 0:
			w.Ecosystem = zzsym.Pick("eco", "npm", "Alpine:v3.18", "acme")
			w.CompareAs = w.Ecosystem
			rows = append(rows, w.Ecosystem+",,"+w.Name+","+w.Version+extra)
		case 1:
			w.Ecosystem, w.CompareAs = "acme", "PyPI"
			rows = append(rows, "acme,PyPI,"+w.Name+","+w.Version+extra)
		case 2: // a commit
			w.Commit, w.Version = w.Version, ""
			rows = append(rows, ",,"+w.Name+","+w.Commit+extra)
		case 3: // of unknown version
			w.Ecosystem, w.CompareAs, w.Version = "npm", "npm", ""
			rows = append(rows, "npm,,"+w.Name+","+extra)
		case 4: // no name
			rows = append(rows, zzsym.Pick("noname", "npm,,,1.0", ",,,ab")+extra)
			bad = true
		case 5: // neither ecosystem nor commit
			rows = append(rows, ",,"+w.Name+","+extra)
			bad = true
		case 7: // quotes that are not in their place
			rows = append(rows, zzsym.Pick("quote", "npm,,"+w.Name+"\"x,1.0", "\"npm\"x,,"+w.Name+",1.0", "npm,,\""+w.Name+",1.0")+extra)
			bad = true
		case 6: // too short
			rows = append(rows, zzsym.Pick("short", "npm,,a", "a", "npm", ",,"))
			bad = true
		}
		ws = append(ws, w)
	}
	out, d := vRunRows(rows)
	if bad {
		zzsym.Assert(out.code == 127 && out.stderr != "", "a row that is no package is an error")
		zzsym.Assert(len(d.Results) == 0, "and nothing is reported from among such rows")
		zzsym.Observe(vItoa(out.code))

		return
	}
	zzsym.Assert(out.code == 0, "rows that are packages can be read")
	if len(d.Results) != 1 || len(d.Results[0].Packages) != n {
		zzsym.Assert(false, "every row gives one package")

		return
	}
	ps := d.Results[0].Packages
	for i, w := range ws {
		a, b := 0, 0
		for _, v := range ws {
			if v.Name == w.Name && v.Version == w.Version && v.Commit == w.Commit && v.Ecosystem == w.Ecosystem && v.CompareAs == w.CompareAs {
				a++
			}
		}
		for _, p := range ps {
			if p.Name == w.Name && p.Version == w.Version && p.Commit == w.Commit && p.Ecosystem == w.Ecosystem && p.CompareAs == w.CompareAs {
				b++
			}
		}
		zzsym.Assert(a == b, "each with the fields of its row")
		if i > 0 {
			zzsym.Assert(ps[i-1].Name < ps[i].Name || ps[i-1].Name == ps[i].Name && ps[i-1].Version <= ps[i].Version, "packages are listed by name and version")
		}
	}
	zzsym.Observe(vItoa(out.code))
}

// fields are taken literally
func verifC23Field() {
	name := zzsym.StrUpTo("name", 1, 2+zzsym.Tier(), "a ,\"%#/@")
	ver := zzsym.StrUpTo("ver", 0, 2, "1 ,\"=:")
	q := zzsym.Flag("quote")
	if name != "" && name[0] == ' ' {
		zzsym.Reach("space")
	}
	out, d := vRunRows([]string{"npm,," + vCSV(name, q) + "," + vCSV(ver, q)})
	zzsym.Assert(out.code == 0, "any text can be a name and a version")
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 1 {
		zzsym.Assert(false, "every row gives one package")

		return
	}
	p := d.Results[0].Packages[0]
	zzsym.Assert(p.Name == name && p.Version == ver && p.Ecosystem == "npm" && p.CompareAs == "npm" && p.Commit == "", "fields are taken as they are")
	zzsym.Observe(p.Name + "|" + p.Version)
}

// so are ecosystems and what to compare as
func verifC23Eco() {
	known := []string{"npm", "PyPI", "crates.io", "RubyGems", "Packagist", "Go", "Hex", "Maven", "NuGet", "Pub", "CRAN", "Debian", "Alpine", "Debian:12", "NPM", "pypi", "GIT"}
	field := func(n string) string {
		switch zzsym.Choice(n, 3) {
		case 0:
			return ""
		case 1:
			return zzsym.StrUpTo(n, 1, 2+zzsym.Tier(), "aN :#,\"")
		}

		return known[zzsym.Choice(n+"known", len(known))]
	}
	eco, as := field("eco"), field("as")
	q := zzsym.Flag("quote")
	out, d := vRunRows([]string{vCSV(eco, q) + "," + vCSV(as, q) + ",foo,1.0"})
	zzsym.Assert(out.code == 0, "any ecosystem will do")
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 1 {
		zzsym.Assert(false, "every row gives one package")

		return
	}
	p := d.Results[0].Packages[0]
	want := as
	if want == "" {
		want = eco
	}
	zzsym.Assert(p.Name == "foo" && p.Ecosystem == eco && p.CompareAs == want, "fields are taken as they are")
	if eco == "" {
		zzsym.Assert(p.Commit == "1.0" && p.Version == "", "without an ecosystem it is a commit")
	} else {
		zzsym.Assert(p.Commit == "" && p.Version == "1.0", "with an ecosystem it is a version")
	}
	zzsym.Observe(p.Ecosystem + "|" + p.CompareAs)
}

// versions are compared by the rules the row asks for
func verifC23Compare() {
	eco := zzsym.Pick("eco", "acme", "npm", "Debian:12")
	as := zzsym.Pick("as", "PyPI", "npm", "Maven", "")
	if eco != "npm" && as == "" {
		as = "Debian"
	}
	d := zzsym.Byte("d")
	zzsym.Assume(zzsym.And(d >= '0', d <= '9'))
	c := string([]byte{d})
	rules := as
	if as == "" {
		rules = eco
	}
	// versions the rules differ on, and the digits for which they are from 1.0.5 to before 1.0.7
	lo, hi := byte('5'), byte('6')
	ver := "1.0." + c
	switch zzsym.Choice("form", 3) {
	case 1: // a prerelease, except where it is a revision
		ver += "-1"
		if rules == "npm" {
			lo, hi = '6', '7'
		}
	case 2: // a prerelease to everyone but Debian
		ver += map[string]string{"PyPI": "a1", "npm": "-a1", "Maven": "-alpha1", "Debian": "~a1"}[rules]
		lo, hi = '6', '7'
	}
	vPutDB("db", vOSV{id: "A-1", affected: []vAff{{eco: eco, name: "foo", ranges: []vRange{{"ECOSYSTEM", []vEvent{{"introduced", "1.0.5"}, {"fixed", "1.0.7"}}}}}}})
	vConfig("c.yml", nil, "db")
	out, doc := vRunJSON("--config=c.yml", "--use-dbs=false", "--parse-as=csv-row", eco+","+as+",foo,"+ver, "other,npm,foo,"+ver)
	if len(doc.Results) != 1 || len(doc.Results[0].Packages) != 2 {
		zzsym.Assert(false, "every row gives one package")

		return
	}
	hit := zzsym.And(d >= lo, d <= hi)
	for _, p := range doc.Results[0].Packages {
		if p.Ecosystem == "other" {
			zzsym.Assert(len(p.Vulnerabilities) == 0, "advisories of other ecosystems do not matter")

			continue
		}
		zzsym.Assert((len(p.Vulnerabilities) == 1) == hit, "versions are compared by the rules of the ecosystem the row asks for")
	}
	zzsym.Assert((out.code == 1) == hit && (out.code == 0) == !hit, "findings decide the exit code")
	zzsym.Observe(vShow(doc))
}

var _ = sort.Strings
