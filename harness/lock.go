package main

import (
	"encoding/json"
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

// vWant is a package a lockfile is expected to yield.
type vWant struct{ name, ver, commit string }

// vList lists the packages of a lockfile through the command line.
func vList(args ...string) (vOut, []vPkg) {
	out := vRun(append([]string{"--json", "--list-packages"}, args...)...)
	var d vDoc
	err := json.Unmarshal([]byte(out.stdout), &d)
	zzsym.Assert(err == nil, "with --json the standard output is one JSON document")
	if len(d.Results) != 1 {
		return out, nil
	}

	return out, d.Results[0].Packages
}

func vAnyOf(p vPkg, ws []vWant) bool {
	r := false
	for _, w := range ws {
		r = zzsym.Or(r, zzsym.And(p.Name == w.name, zzsym.And(p.Version == w.ver, p.Commit == w.commit)))
	}

	return r
}

// vSame asserts that the packages are exactly those wanted: none lost, none made up, in order.
func vSame(ps []vPkg, ws []vWant, eco string) {
	for _, w := range ws {
		found := false
		for _, p := range ps {
			found = zzsym.Or(found, zzsym.And(p.Name == w.name, zzsym.And(p.Version == w.ver, p.Commit == w.commit)))
		}
		zzsym.Assert(found, "every package of the lockfile is found, with its name, version and commit")
	}
	for i, p := range ps {
		zzsym.Assert(vAnyOf(p, ws), "nothing but the packages of the lockfile is found")
		zzsym.Assert(p.Ecosystem == eco && p.CompareAs == eco, "packages belong to the ecosystem of the lockfile")
		if i > 0 {
			q := ps[i-1]
			zzsym.Assert(zzsym.Or(q.Name < p.Name, zzsym.And(q.Name == p.Name, q.Version <= p.Version)), "packages are listed by name and version")
		}
	}
	zzsym.Assert(len(ps) <= len(ws), "no package is found more often than it is listed")
}

// vObs records the packages for comparison with the real run; entries that tie in the order are not recorded.
func vObs(out vOut, ps []vPkg) {
	s := vItoa(out.code)
	for i, p := range ps {
		if i > 0 && ps[i-1].Name == p.Name && ps[i-1].Version == p.Version {
			return
		}
		s += ";" + p.Ecosystem + "/" + p.Name + "@" + p.Version + "#" + p.Commit
	}
	zzsym.Observe(s)
}

// vCheckList lists a lockfile that must parse and compares.
func vCheckList(path string, ws []vWant, eco string) {
	out, ps := vList(path)
	zzsym.Assert(out.code == 0, "a well-formed lockfile can be read")
	vSame(ps, ws, eco)
	vObs(out, ps)
}

func vName(n string) string { return zzsym.StrUpTo(n, 1, 2, "abz-") }

const vNameChars = "aZ0-_."

// vVerTxt is a version text.
func vVerTxt(n string) string {
	if zzsym.Tier() == 0 {
		return zzsym.Str(n, 1, "0123456789") + "." + zzsym.Str(n+"m", 1, "0123456789")
	}

	return zzsym.Str(n, 1, "0123456789") + "." + zzsym.StrUpTo(n+"m", 1, 2, "0123456789")
}

// vVerAt is the version text of the i-th package: the first one's spelling varies.
func vVerAt(n string, i int) string {
	if i > 0 {
		return vVerTxt(n)
	}

	return vVerTxt(n) + zzsym.Pick(n+"suffix", "", "-beta", "-rc.1", "+b.2")
}

func vQuote(s string) string { return "\"" + s + "\"" }

var _ = strings.Join
