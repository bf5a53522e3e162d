package main

import (
	"strings"

	"github.com/g-rath/osv-detector/internal"
	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC01Many", verifC01Many)
var _ = zzsym.Reg("verifC03Many", verifC03Many)
var _ = zzsym.Reg("verifC07Long", verifC07Long)
var _ = zzsym.Reg("verifC16Long", verifC16Long)
var _ = zzsym.Reg("verifC18Long", verifC18Long)
var _ = zzsym.Reg("verifC20Long", verifC20Long)

// a range that opens and closes many times, in many orders
func verifC01Many() {
	n := 8
	var evs []vEvent
	for i := range n {
		evs = append(evs, vEvent{"introduced", "1." + vItoa(2*i)})
		if i < n-1 || zzsym.Flag("closed") {
			evs = append(evs, vEvent{zzsym.Pick("end", "fixed"), "1." + vItoa(2*i+1)})
		}
	}
	closed := len(evs) == 2*n
	switch zzsym.Choice("order", 3) {
	case 1: // backwards
		for i := range len(evs) / 2 {
			evs[i], evs[len(evs)-1-i] = evs[len(evs)-1-i], evs[i]
		}
	case 2: // from some place on
		k := 1 + zzsym.Choice("from", len(evs)-1)
		evs = append(append([]vEvent{}, evs[k:]...), evs[:k]...)
	}
	ten := zzsym.Flag("ten")
	d := zzsym.Byte("v")
	zzsym.Assume(zzsym.And(d >= '0', d <= '9'))
	v := "1." + string([]byte{d})
	num := int(d - '0')
	if ten {
		v = "1.1" + string([]byte{d})
		num += 10
	}
	db := vDirDB(nil, vOSV{id: "OSV-1", affected: []vAff{{eco: "npm", name: "foo", ranges: []vRange{{"SEMVER", evs}}}}})
	res := vCheck(db, internal.PackageDetails{Name: "foo", Version: v, Ecosystem: "npm", CompareAs: "npm"})
	want := zzsym.And(num < 2*n-1, num%2 == 0)
	if !closed {
		want = zzsym.Or(want, num >= 2*n-2)
	}
	zzsym.Assert((len(res[0]) == 1) == want, "a version is affected exactly when the range's events say so")
	zzsym.Observe(vItoa(len(res[0])))
}

// a database of many advisories and a lockfile of many packages
func verifC03Many() {
	n := 30
	per := 10 // packages the advisories are for
	if zzsym.Flag("one") {
		n, per = 140, 1
	}
	var osvs []vOSV
	var pkgs []internal.PackageDetails
	odd := zzsym.Choice("odd", 3)
	at := []int{0, n / 2, n - 1}[zzsym.Choice("at", 3)]
	for i := range n {
		o := vSimple("V-"+vItoa(i), "npm", "p"+vItoa(i%per))
		if odd == 1 && i == at {
			o.withdrawn = true
		}
		if odd == 2 && i == at {
			o.affected = append(o.affected, vAff{eco: "npm", name: "all", versions: []string{"1." + zzsym.Str("v", 1, "0123456789")}})
		}
		osvs = append(osvs, o)
		pkgs = append(pkgs, internal.PackageDetails{Name: "p" + vItoa(i%15), Version: "1.0", Ecosystem: "npm", CompareAs: "npm"})
	}
	all := internal.PackageDetails{Name: "all", Version: "1." + zzsym.Str("mine", 1, "0123456789"), Ecosystem: "npm", CompareAs: "npm"}
	pkgs = append(pkgs, all)
	db := vDirDB(nil, osvs...)
	res := vCheck(db, pkgs...)
	if len(res) != len(pkgs) {
		return
	}
	for k, p := range pkgs {
		want := 0
		for i, o := range osvs {
			hit := !o.withdrawn && p.Name == "p"+vItoa(i%per)
			if k == n {
				hit = odd == 2 && i == at && o.affected[len(o.affected)-1].versions[0] == all.Version
			}
			if hit {
				want++
				found := false
				for _, v := range res[k] {
					found = found || v.ID == o.id
				}
				zzsym.Assert(found, "an advisory that affects a package is found, among however many")
			}
		}
		zzsym.Assert(len(res[k]) == want, "and nothing else is")
	}
}

// vLong reads a lockfile with a very long line: either all of it is read or that is an error.
func vLong(kind int) {
	long := strings.Repeat("x", 70000)
	d := zzsym.Str("v", 1, "0123456789")
	path := ""
	var parts []string
	switch kind {
	case 0:
		path = "yarn.lock"
		parts = []string{"a@^1:\n  version \"1." + d + "\"\n\n", "# " + long + "\n\n", "b@^1:\n  version \"1." + d + "\"\n  integrity sha512-" + long + "\n\n", "c@^1:\n  version \"1." + d + "\"\n"}
	case 1:
		path = "requirements.txt"
		parts = []string{"a==1." + d + "\n", "# " + long + "\n", "b==1." + d + " --hash=" + long + "\n", "c==1." + d + "\n"}
	case 2:
		path = "mix.lock"
		row := func(n, more string) string {
			return "  \"" + n + "\": {:hex, :" + n + ", \"1." + d + "\", \"ab\", [:mix], [" + more + "], \"hexpm\", \"cd\"},\n"
		}
		parts = []string{"%{\n" + row("a", ""), "# " + long + "\n", row("b", long), row("c", "") + "}\n"}
	case 3:
		path = "gradle.lockfile"
		parts = []string{"g:a:1." + d + "=x\n", "# " + long + "\n", "g:b:1." + d + "=" + long + "\n", "g:c:1." + d + "=x\n"}
	case 4:
		path = "Gemfile.lock"
		parts = []string{"GEM\n  specs:\n    a (1." + d + ")\n", "      " + long + " (~> 1)\n", "    b (1." + d + "-" + long + ")\n", "    c (1." + d + ")\n"}
	}
	doc := ""
	names := ""
	for i, p := range parts {
		if i != 1 && i != 2 || zzsym.Flag("part") {
			doc += p
			names += []string{"a", "", "b", "c"}[i]
		}
	}
	zzsym.PutFile(path, doc)
	out, ps := vList(path)
	if out.code == 127 {
		zzsym.Assert(vHas(out.stderr, path), "a lockfile that cannot be read is named")
		zzsym.Observe("error")

		return
	}
	zzsym.Assert(out.code == 0, "a lockfile is read or is an error")
	got := ""
	for _, p := range ps {
		got += strings.TrimPrefix(p.Name, "g:")
		zzsym.Assert(p.Version == "1."+d, "each package has its version")
	}
	zzsym.Assert(got == names, "all of a lockfile is read, however long its lines")
	zzsym.Observe(got)
}

func verifC07Long() { vLong(zzsym.Choice("file", 5)) }
func verifC16Long() { vLong(0) }
func verifC18Long() { vLong(1) }
func verifC20Long() { vLong(2 + zzsym.Choice("file", 3)) }
