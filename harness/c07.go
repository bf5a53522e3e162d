package main

import (
	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC07Exit", verifC07Exit)
var _ = zzsym.Reg("verifC07Early", verifC07Early)
var _ = zzsym.Reg("verifC07DB", verifC07DB)

const vCargoFoo = "[[package]]\nname = \"foo\"\nversion = \"1.0\"\n"
const vCargoBar = "[[package]]\nname = \"bar\"\nversion = \"1.0\"\n"

// any mix of good, bad, missing and empty paths
func verifC07Exit() {
	fix := vVersion("fix", false)
	vPutDB("db", vOSV{id: "GHSA-1", affected: []vAff{{eco: "crates.io", name: "foo", ranges: []vRange{{"SEMVER", []vEvent{{"introduced", "0"}, {"fixed", fix.s}}}}}}})
	vConfig("c.yml", nil, "db")
	args := []string{"--config=c.yml", "--use-dbs=false"}
	lock := func() (string, bool) {
		v := vVersion("v", false)

		return "[[package]]\nname = \"foo\"\nversion = \"" + v.s + "\"\n", v.n < fix.n
	}
	json := zzsym.Flag("json")
	if json {
		args = append(args, "--json")
	}
	ign := false
	if zzsym.Flag("ignore") {
		id := "GHSA-" + zzsym.Str("id", 1, "12")
		ign = id == "GHSA-1"
		args = append(args, "--ignore="+id)
	}
	n := 1 + zzsym.Choice("paths", 2+zzsym.Tier())
	vulns, broken, missing, files := false, false, false, 0
	for i := range n {
		p := "p" + vItoa(i)
		switch zzsym.Choice("kind", 9) {
		case 0: // clean lockfile
			zzsym.PutFile(p+"/Cargo.lock", vCargoBar)
			args = append(args, p+"/Cargo.lock")
			files++
		case 1: // vulnerable lockfile
			l, bad := lock()
			zzsym.PutFile(p+"/Cargo.lock", l)
			args = append(args, p+"/Cargo.lock")
			vulns = zzsym.Or(vulns, bad)
			files++
		case 2: // directory with one
			l, bad := lock()
			zzsym.PutFile(p+"/Cargo.lock", l)
			args = append(args, p)
			vulns = zzsym.Or(vulns, bad)
			files++
		case 3: // directory without any
			zzsym.PutFile(p+"/README.md", "")
			args = append(args, p)
		case 4: // missing
			args = append(args, p+"/Cargo.lock")
			missing = true
		case 5: // unparsable
			zzsym.PutFile(p+"/Cargo.lock", "[[package]\n")
			args = append(args, p+"/Cargo.lock")
			broken = true
			files++
		case 6: // unknown file name
			zzsym.PutFile(p+"/what.ever", vCargoFoo)
			args = append(args, p+"/what.ever")
			broken = true
			files++
		case 7: // parsed explicitly
			l, bad := lock()
			zzsym.PutFile(p+"/what.ever", l)
			args = append(args, "Cargo.lock:"+p+"/what.ever")
			vulns = zzsym.Or(vulns, bad)
			files++
		case 8: // unknown explicit parser
			zzsym.PutFile(p+"/Cargo.lock", vCargoFoo)
			args = append(args, "nope:"+p+"/Cargo.lock")
			broken = true
			files++
		}
	}
	out := vRun(args...)
	vulns = zzsym.And(vulns, !ign)
	switch {
	case files == 0 && !missing:
		zzsym.Assert(out.code == 128, "paths without any lockfile give 128")
	case files == 0:
		zzsym.Assert(out.code == 127, "unreadable paths give 127")
	case broken:
		zzsym.Assert(out.code == 127, "a lockfile that cannot be checked gives 127, whatever else was found")
	default:
		zzsym.Assert((out.code == 1) == vulns, "vulnerabilities give 1 and nothing else does")
		if missing {
			zzsym.Assert(out.code == 1 || out.code == 127, "an unreadable path is never a success")
		} else {
			zzsym.Assert(out.code == 1 || out.code == 0, "0 when everything was checked and nothing was found")
		}
	}
	if out.code >= 127 {
		zzsym.Assert(out.stderr != "", "a failure is explained on the standard error")
	}
	zzsym.Observe(vItoa(out.code))
}

// runs that end before anything is checked
func verifC07Early() {
	zzsym.PutFile("p/Cargo.lock", vCargoFoo)
	vPutDB("db", vSimple("GHSA-1", "crates.io", "foo"))
	var args []string
	want := 0
	switch zzsym.Choice("what", 8) {
	case 0:
		want = 127
	case 1:
		args = []string{"--version"}
	case 2:
		args = []string{"--list-ecosystems", "p/missing"}
	case 3:
		args = []string{"--parse-as=" + zzsym.Str("as", 3, "abc-"), "p/Cargo.lock"}
		want = 127
	case 4:
		args = []string{"--config=missing.yml", "p/Cargo.lock"}
		want = 127
	case 5:
		zzsym.PutFile("bad.yml", "ignore: {")
		args = []string{"--config=bad.yml", "p/Cargo.lock"}
		want = 127
	case 6:
		args = []string{"--list-packages", "p/Cargo.lock"}
	case 7:
		zzsym.PutFile("p/.osv-detector.yml", "ignore: {")
		args = []string{"--use-dbs=false", "p/Cargo.lock"}
		want = 127
	}
	if zzsym.Flag("json") {
		args = append([]string{"--json"}, args...)
	}
	net := 0
	zzsym.Network(func(zzsym.Req) zzsym.Resp { net++; return zzsym.Resp{Err: "no network"} })
	out := vRun(args...)
	zzsym.Assert(out.code == want, "a run that cannot start gives 127, informational runs give 0")
	zzsym.Assert(net == 0, "nothing is fetched")
	if want == 127 {
		zzsym.Assert(out.stderr != "", "a failure is explained on the standard error")
	}
	zzsym.Observe(vItoa(out.code))
}

// databases that cannot be loaded or asked
func verifC07DB() {
	zzsym.PutFile("p/Cargo.lock", zzsym.Pick("lock", vCargoFoo, vCargoBar, "version = 3\n"))
	vuln := zzsym.Flag("other")
	cfg := ""
	if vuln {
		zzsym.PutFile("q/Cargo.lock", vCargoFoo)
	}
	failing := true
	asked := false
	loads := true
	switch zzsym.Choice("db", 9) {
	case 0:
		cfg = "  - url: file:/missing\n"
		loads = false
	case 1:
		cfg = "  - url: https://example.com/a.zip\n"
		loads = false
	case 2:
		cfg = "  - url: not-a-url\n"
	case 3:
		cfg = "  - url: https://example.com/a\n    type: wat\n"
	case 4:
		cfg = "  - url: https://example.com/v1\n"
		asked = true
	case 5:
		cfg = "  - url: file:/empty\n"
		zzsym.PutDir("empty")
		failing = false
	case 6:
		cfg = "  - url: file:/empty\n    working-directory: sub\n"
		loads = false
		zzsym.PutDir("empty")
	case 7:
		failing = false
	case 8:
		cfg = "  - url: https://example.com/ok.zip\n"
		failing = false
	}
	st := []int{200, 404, 500, 0}[zzsym.Choice("status", 4)]
	if asked && st == 200 {
		failing = false
	}
	zip := zzsym.MakeZip(nil)
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		if r.URL == "https://example.com/ok.zip" {
			return zzsym.Resp{Status: 200, Body: zip}
		}
		if st == 0 {
			return zzsym.Resp{Err: "down"}
		}
		if r.URL == "https://example.com/v1/querybatch" && st == 200 {
			n := vCount(r.Body, "\"package\"")
			s := "{}"
			for range n - 1 {
				s += ",{}"
			}
			if n == 0 {
				s = ""
			}

			return zzsym.Resp{Status: 200, Body: "{\"results\":[" + s + "]}"}
		}

		return zzsym.Resp{Status: st, Body: "not a zip"}
	})
	vPutDB("db", vSimple("GHSA-1", "crates.io", "foo"))
	if zzsym.Flag("last") {
		zzsym.PutFile("c.yml", "extra-databases:\n  - url: file:/db\n"+cfg)
	} else {
		zzsym.PutFile("c.yml", "extra-databases:\n"+cfg+"  - url: file:/db\n")
	}
	args := []string{"--config=c.yml", "--use-dbs=false", "p/Cargo.lock"}
	if vuln {
		args = append(args, "q/Cargo.lock")
	}
	out, d := vRunJSON(args...)
	found := false
	empty := true
	for _, f := range d.Results {
		for _, p := range f.Packages {
			empty = false
			found = found || len(p.Vulnerabilities) > 0
		}
	}
	zzsym.Assert(found == (vuln || vHas(mustGet("p/Cargo.lock"), "foo")), "databases that do work are still used")
	if asked && empty {
		failing = false // nothing to ask about
	}
	if failing {
		zzsym.Assert(out.code != 0, "a database that cannot be used is never a success")
		zzsym.Assert(out.stderr != "", "a failure is explained on the standard error")
		if !loads {
			zzsym.Assert(out.code == 127, "a database that cannot be loaded gives 127, whatever else was found")
		}
		if !found {
			zzsym.Assert(out.code == 127, "a failing database gives 127 when nothing was found")
		}
	} else {
		want := 0
		if found {
			want = 1
		}
		zzsym.Assert(out.code == want, "0 or 1 when everything worked")
	}
	zzsym.Observe(vItoa(out.code) + vShow(d))
}

func mustGet(p string) string { s, _ := zzsym.GetFile(p); return s }
