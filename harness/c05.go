package main

import (
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC05Aliases", verifC05Aliases)
var _ = zzsym.Reg("verifC05Ignored", verifC05Ignored)
var _ = zzsym.Reg("verifC06Ignores", verifC06Ignores)
var _ = zzsym.Reg("verifC06Text", verifC06Text)
var _ = zzsym.Reg("verifC06Files", verifC06Files)

func vContains(ss []string, s string) bool {
	r := false
	for _, x := range ss {
		r = zzsym.Or(r, x == s)
	}

	return r
}

func vRelated(a, b vOSV) bool {
	r := a.id == b.id
	r = zzsym.Or(r, vContains(a.aliases, b.id))
	r = zzsym.Or(r, vContains(b.aliases, a.id))
	for _, x := range a.aliases {
		r = zzsym.Or(r, vContains(b.aliases, x))
	}

	return r
}

// the same vulnerability known under several ids, in one or several databases
func verifC05Aliases() {
	n := 2 + zzsym.Choice("n", 2)
	var osvs []vOSV
	sameID := false
	for i := range n {
		o := vSimple("X"+vItoa(i+1), "npm", "foo")
		if i == 2 && zzsym.Flag("sameid") {
			o.id = "X1"
			sameID = true
		}
		na := zzsym.Choice("aliases", 3)
		if n == 3 && i == 1 && zzsym.Tier() == 0 {
			na = min(na, 1)
		}
		for range na {
			o.aliases = append(o.aliases, "X"+zzsym.Str("alias", 1, "12345"))
		}
		osvs = append(osvs, o)
	}
	split := 1 + zzsym.Choice("split", n)
	vPutDB("db1", osvs[:split]...)
	vPutDB("db2", osvs[split:]...)
	vConfig("c.yml", nil, "db1", "db2")
	_, d := vRunJSON("--config=c.yml", "--use-dbs=false", "--parse-as=csv-row", "npm,,foo,1.0")
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 1 {
		zzsym.Assert(false, "the package given is reported")

		return
	}
	got := d.Results[0].Packages[0].Vulnerabilities
	// transitively the same vulnerability
	same := make([][]bool, n)
	for i := range osvs {
		same[i] = make([]bool, n)
		for j := range osvs {
			same[i][j] = vRelated(osvs[i], osvs[j])
		}
	}
	for k := range osvs {
		for i := range osvs {
			for j := range osvs {
				same[i][j] = zzsym.Or(same[i][j], zzsym.And(same[i][k], same[k][j]))
			}
		}
	}
	zzsym.Assert(len(got) > 0 && got[0].ID == osvs[0].id, "what the first database says comes first")
	for i := range osvs {
		covered := false
		alone := true
		for j := range osvs {
			covered = zzsym.Or(covered, zzsym.And(same[i][j], vHasID(got, osvs[j].id)))
			if i == j {
				continue
			}
			alone = zzsym.And(alone, !vRelated(osvs[i], osvs[j]))
			if !sameID {
				zzsym.Assert(!zzsym.And(vRelated(osvs[i], osvs[j]), zzsym.And(vHasID(got, osvs[i].id), vHasID(got, osvs[j].id))), "two aliases of one vulnerability are never both reported")
			}
		}
		zzsym.Assert(covered, "every vulnerability found is reported under one of its ids")
		zzsym.Assert(zzsym.Or(!alone, vHasID(got, osvs[i].id)), "an advisory that is no alias of another is reported")
	}
	for i := range got {
		for j := range i {
			zzsym.Assert(got[i].ID != got[j].ID, "no id is reported twice")
		}
	}
	zzsym.Observe(vIDs(got))
}

// aliases among ignored advisories
func verifC05Ignored() {
	n := 2 + zzsym.Choice("n", 2)
	var osvs []vOSV
	for i := range n {
		o := vSimple("X"+vItoa(i+1), "npm", "foo")
		for range zzsym.Choice("aliases", 2) {
			o.aliases = append(o.aliases, "X"+zzsym.Str("alias", 1, "12345"))
		}
		osvs = append(osvs, o)
	}
	split := 1 + zzsym.Choice("split", n)
	vPutDB("db1", osvs[:split]...)
	vPutDB("db2", osvs[split:]...)
	vConfig("c.yml", nil, "db1", "db2")
	args := []string{"--config=c.yml", "--use-dbs=false", "--parse-as=csv-row"}
	var flags []string
	for range 1 + zzsym.Choice("ignores", 2) {
		id := "X" + zzsym.Str("ignore", 1, "1234")
		flags = append(flags, id)
		args = append(args, "--ignore="+id)
	}
	_, d := vRunJSON(append(args, "npm,,foo,1.0")...)
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 1 {
		zzsym.Assert(false, "the package given is reported")

		return
	}
	p := d.Results[0].Packages[0]
	found := func(o vOSV) bool { return zzsym.Or(vHasID(p.Ignored, o.id), vHasID(p.Vulnerabilities, o.id)) }
	zzsym.Assert(found(osvs[0]), "what comes first is what is reported")
	for i := range osvs {
		ign := vContains(flags, osvs[i].id)
		zzsym.Assert(zzsym.Or(ign, !vHasID(p.Ignored, osvs[i].id)), "only ignored advisories are listed as such")
		zzsym.Assert(zzsym.Or(!ign, !vHasID(p.Vulnerabilities, osvs[i].id)), "an ignored advisory is not reported")
		alone := true
		for j := range osvs {
			if i == j {
				continue
			}
			alone = zzsym.And(alone, !vRelated(osvs[i], osvs[j]))
			zzsym.Assert(!zzsym.And(vRelated(osvs[i], osvs[j]), zzsym.And(found(osvs[i]), found(osvs[j]))), "two aliases of one vulnerability are never both listed, ignored or not")
		}
		zzsym.Assert(zzsym.Or(!alone, found(osvs[i])), "an advisory that is no alias of another is listed")
	}
	zzsym.Observe(vShow(d))
}

// which advisories count as ignored
func verifC06Ignores() {
	ids := []string{"GHSA-a", "GHSA-a2", "GHSA-3"}
	alpha := "aA23-"
	var cfg, flags []string
	for i := range zzsym.Choice("config", 3) {
		prefix := "GHSA-"
		if i == 0 || zzsym.Tier() > 0 {
			prefix = zzsym.Pick("cp", "GHSA-", "HSA-", "ghsa-", "CVE-")
		}
		cfg = append(cfg, prefix+zzsym.StrUpTo("c", 1, 2, alpha))
	}
	for i := range zzsym.Choice("flags", 3) {
		prefix := "GHSA-"
		if i == 0 || zzsym.Tier() > 0 {
			prefix = zzsym.Pick("fp", "GHSA-", "GHS", "CVE-", "X,GHSA-")
		}
		flags = append(flags, prefix+zzsym.StrUpTo("f", 1, 2, alpha))
	}
	first := vSimple(ids[0], "npm", "foo")
	first.aliases = []string{"CVE-a", "CVE-2"}
	z := zzsym.MakeZip([]zzsym.ZipEntry{{Name: "a.json", Data: first.vJSON()}, {Name: "b.json", Data: vSimple(ids[1], "npm", "foo").vJSON()}, {Name: "c.json", Data: vSimple(ids[2], "npm", "bar").vJSON()}})
	zzsym.Network(func(zzsym.Req) zzsym.Resp { return zzsym.Resp{Status: 200, Body: z} })
	respect := true
	args := []string{"--parse-as=csv-file"}
	zzsym.PutFile("dir/rows", "npm,,foo,1.0\nnpm,,bar,1.0\n")
	switch zzsym.Choice("where", 3) {
	case 0:
		vConfig("dir/.osv-detector.yml", cfg)
	case 1:
		vConfig("dir/.osv-detector.yaml", cfg)
	case 2:
		vConfig("other.yml", cfg)
		vConfig("dir/.osv-detector.yml", ids)
		args = append(args, "--config=other.yml")
	}
	switch zzsym.Choice("off", 3) {
	case 1:
		args = append(args, "--no-config-ignores")
		respect = false
	case 2:
		args = append(args, "--no-config")
		respect = false
	}
	for _, f := range flags {
		args = append(args, "--ignore="+f)
	}
	out, d := vRunJSON(append(args, "dir/rows")...)
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 2 {
		zzsym.Assert(false, "both packages are reported")

		return
	}
	left := false
	for i, p := range d.Results[0].Packages {
		mine := ids[:2]
		if i == 0 {
			mine = ids[2:]
		}
		for _, id := range mine {
			ign := vContains(flags, id)
			if respect {
				ign = zzsym.Or(ign, vContains(cfg, id))
			}
			zzsym.Assert(vHasID(p.Ignored, id) == ign, "an advisory counts as ignored exactly when its id is listed by a flag or a respected config")
			zzsym.Assert(vHasID(p.Vulnerabilities, id) == !ign, "an advisory that is not ignored stays reported")
			left = zzsym.Or(left, !ign)
		}
		zzsym.Assert(len(p.Ignored)+len(p.Vulnerabilities) == len(mine), "ignored and reported together are what was found")
	}
	zzsym.Assert((out.code == 1) == left && (out.code == 1 || out.code == 0), "the exit code depends on the advisories left")
	zzsym.Observe(vShow(d))
}

// text output: ignored advisories are counted, not listed
func verifC06Text() {
	var flags []string
	for range zzsym.Choice("flags", 4) {
		flags = append(flags, "--ignore=GHSA-"+zzsym.Str("f", 1, "1234"))
	}
	vPutDB("db", vSimple("GHSA-1", "npm", "foo"), vSimple("GHSA-2", "npm", "foo"), vSimple("GHSA-3", "npm", "bar"))
	vConfig("c.yml", nil, "db")
	out := vRun(append(flags, "--config=c.yml", "--use-dbs=false", "--parse-as=csv-row", "npm,,foo,1.0", "npm,,bar,1.0")...)
	left := 0
	for _, id := range []string{"GHSA-1", "GHSA-2", "GHSA-3"} {
		ign := vContains(flags, "--ignore="+id)
		if !ign {
			left++
		}
		zzsym.Assert(vHas(out.stdout, id) == !ign, "the text output lists exactly the advisories that are not ignored")
	}
	word := "known"
	if left < 3 {
		word = "new"
		were := "were"
		if left == 2 {
			were = "was"
		}
		zzsym.Assert(vHas(out.stdout, "("+vItoa(3-left)+" "+were+" ignored)"), "the text output counts the ignored advisories")
	} else {
		zzsym.Assert(!vHas(out.stdout, "ignored"), "nothing is said about ignores when there are none")
	}
	switch left {
	case 0:
		zzsym.Assert(vHas(out.stdout, "no "+word+" vulnerabilities found"), "the summary says nothing was found")
	case 1:
		zzsym.Assert(vHas(out.stdout, "1 "+word+" vulnerability found"), "the summary counts what is left")
	default:
		zzsym.Assert(vHas(out.stdout, vItoa(left)+" "+word+" vulnerabilities found"), "the summary counts what is left")
	}
	zzsym.Assert(out.code == min(left, 1), "the exit code depends on the advisories left")
	zzsym.Observe(out.stdout)
}

// the config beside one lockfile does not affect another's
func verifC06Files() {
	z := zzsym.MakeZip([]zzsym.ZipEntry{{Name: "a.json", Data: vSimple("GHSA-1", "npm", "foo").vJSON()}})
	zzsym.Network(func(zzsym.Req) zzsym.Resp { return zzsym.Resp{Status: 200, Body: z} })
	row := "npm,,foo,1.0\n"
	dirs := []string{"a", "b", "a/sub"}
	has := make([]bool, len(dirs))
	respect := true
	var args []string
	if zzsym.Flag("nci") {
		args = append(args, "--no-config-ignores")
		respect = false
	}
	for i, d := range dirs {
		zzsym.PutFile(d+"/rows", row)
		switch zzsym.Choice("cfg", 3) {
		case 0: // a config without ignores
			vConfig(d+"/.osv-detector.yml", nil)
		case 1:
			ign := []string{"GHSA-" + zzsym.Str("c", 1, "12")}
			has[i] = ign[0] == "GHSA-1"
			vConfig(d+"/.osv-detector.yml", ign)
		case 2: // no config
		}
		args = append(args, "csv-file:"+d+"/rows")
	}
	_, d := vRunJSON(args...)
	if len(d.Results) != len(dirs) {
		zzsym.Assert(false, "every file is reported")

		return
	}
	for i, f := range d.Results {
		if len(f.Packages) != 1 {
			zzsym.Assert(false, "the package is reported")

			return
		}
		want := zzsym.And(respect, has[i])
		zzsym.Assert(strings.HasPrefix(f.FilePath, dirs[i]+"/rows"), "results come in the order given")
		zzsym.Assert(vHasID(f.Packages[0].Ignored, "GHSA-1") == want, "the config beside a lockfile applies to that lockfile only")
		zzsym.Assert(vHasID(f.Packages[0].Vulnerabilities, "GHSA-1") == !want, "what another lockfile ignores is still reported")
	}
	zzsym.Observe(vShow(d))
}
