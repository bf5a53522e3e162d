package main

import (
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC25Many", verifC25Many)
var _ = zzsym.Reg("verifC25Packages", verifC25Packages)
var _ = zzsym.Reg("verifC25Findings", verifC25Findings)
var _ = zzsym.Reg("verifC25Update", verifC25Update)
var _ = zzsym.Reg("verifC25Databases", verifC25Databases)

// vTwice runs twice; whatever order maps are gone through, the outcome is the same.
func vTwice(args ...string) {
	a := vRun(args...)
	zzsym.MapOrders(true)
	b := vRun(args...)
	zzsym.MapOrders(false)
	zzsym.Assert(a.code == b.code, "the same input gives the same exit code")
	zzsym.Assert(a.stdout == b.stdout, "the same input gives the same standard output")
	zzsym.Assert(a.stderr == b.stderr, "the same input gives the same standard error")
	zzsym.Observe(vItoa(a.code))
}

// the packages of a lockfile are listed in the same order every time
func verifC25Packages() {
	n := 2 + zzsym.Tier()
	name := func(i int) string { return zzsym.Str("name", 1, "ab") }
	ver := func(i int) string { return zzsym.Str("ver", 1, "12") + ".0" }
	commit := func(i int) string { return zzsym.Str("commit", 1, "cd") }
	path, doc := "", ""
	switch zzsym.Choice("file", 14) {
	case 0:
		path, doc = "package-lock.json", "{\"lockfileVersion\":2,\"packages\":{\"\":{}"
		for i := range n {
			doc += ",\"x" + vItoa(i) + "/node_modules/" + name(i) + "\":{\"version\":\""
			if zzsym.Flag("git") { // what is at one commit has one version
				doc += "1.0\",\"resolved\":\"git+ssh://git@github.com/o/r.git#" + commit(i) + "\"}"
			} else {
				doc += ver(i) + "\"}"
			}
		}
		doc += "}}"
	case 1:
		path, doc = "package-lock.json", "{\"lockfileVersion\":1,\"dependencies\":{"
		for i := range n {
			if i > 0 {
				doc += ","
			}
			nm := name(i)
			v := ver(i)
			if zzsym.Flag("git") {
				v = "git+ssh://git@github.com/o/r.git#" + commit(i)
			}
			doc += "\"x" + vItoa(i) + "\":{\"version\":\"0.1\",\"dependencies\":{\"" + nm + "\":{\"version\":\"" + v + "\"}}}"
		}
		doc += "}}"
	case 2:
		path, doc = "pnpm-lock.yaml", "lockfileVersion: 5.4\npackages:\n"
		for i := range n {
			doc += "  github.com/o/r/" + vItoa(i) + commit(i) + ":\n    resolution: {tarball: \"https://codeload.github.com/o/r/tar.gz/" + vItoa(i) + commit(i) + "\"}\n    name: \"" + name(i) + "\"\n    version: \"" + ver(i) + "\"\n"
		}
	case 3:
		path, doc = "Pipfile.lock", "{\"default\":{"
		for i := range n {
			if i > 0 {
				doc += ","
			}
			doc += "\"x" + vItoa(i) + name(i) + "\":{\"version\":\"==" + ver(i) + "\"}"
		}
		doc += "},\"develop\":{\"x0a\":{\"version\":\"==" + ver(9) + "\"}}}"
	case 4:
		path, doc = "packages.lock.json", "{\"version\":1,\"dependencies\":{"
		for i := range n {
			if i > 0 {
				doc += ","
			}
			doc += "\"net" + vItoa(i) + "\":{\"" + name(i) + "\":{\"resolved\":\"" + ver(i) + "\"},\"z\":{\"resolved\":\"" + ver(i) + "\"}}"
		}
		doc += "}}"
	case 5:
		path, doc = "renv.lock", "{\"Packages\":{"
		for i := range n {
			if i > 0 {
				doc += ","
			}
			doc += "\"x" + vItoa(i) + "\":{\"Package\":\"" + name(i) + "\",\"Version\":\"" + ver(i) + "\"}"
		}
		doc += "}}"
	case 6:
		path, doc = "pubspec.lock", "packages:\n"
		for i := range n {
			doc += "  \"" + vItoa(i) + "\":\n    description:\n      name: \"" + name(i) + "\"\n      resolved-ref: \"" + commit(i) + "\"\n    version: \"" + ver(i) + "\"\n"
		}
	case 7:
		path, doc = "go.mod", "module m\n"
		for i := range n {
			doc += "require x.y/z" + vItoa(i) + " v1.0.0\nreplace x.y/z" + vItoa(i) + " => x.y/" + name(i) + " v1." + ver(i) + "\n"
		}
	case 8:
		path, doc = "pom.xml", "<project><dependencies>"
		for i := range n {
			doc += vDep(name(i)+vItoa(i%2), ver(i))
		}
		doc += "</dependencies></project>"
	case 9:
		path = "requirements.txt"
		for i := range n {
			doc += name(i) + "==" + ver(i) + "\n"
		}
	case 10:
		path, doc = "bun.lock", "{\"packages\":{"
		for i := range n {
			if i > 0 {
				doc += ","
			}
			doc += "\"x" + vItoa(i) + "\":[\"" + name(i) + "@github:o/r#" + commit(i) + "\",{},\"x\"]"
		}
		doc += "}}"
	case 11:
		path = "yarn.lock"
		for i := range n {
			doc += name(i) + "@^" + vItoa(i) + ":\n  version \"" + ver(i) + "\"\n  resolved \"https://codeload.github.com/o/r/tar.gz/" + commit(i) + "\"\n\n"
		}
	case 12:
		path, doc = "composer.lock", "{\"packages\":["
		for i := range n {
			if i > 0 {
				doc += ","
			}
			doc += "{\"name\":\"" + name(i) + "\",\"version\":\"" + ver(i) + "\",\"dist\":{\"reference\":\"" + commit(i) + "\"}}"
		}
		doc += "]}"
	case 13:
		path = "Cargo.lock"
		for i := range n {
			doc += "[[package]]\nname = \"" + name(i) + "\"\nversion = \"" + ver(i) + "\"\n"
		}
	}
	zzsym.PutFile(path, doc)
	if zzsym.Tier() > 0 && zzsym.Flag("json") {
		vTwice("--json", "--list-packages", path)
	} else {
		vTwice("--list-packages", path)
	}
}

// findings come in the same order every time
func verifC25Findings() {
	id := func() string { return "V-" + zzsym.Str("id", 1, "ab") }
	var osvs []vOSV
	for range 2 + zzsym.Tier() {
		o := vSimple(id(), "npm", "foo")
		if zzsym.Flag("both") {
			o.affected = append(o.affected, vSimple("", "npm", "bar").affected[0])
		}
		osvs = append(osvs, o)
	}
	vPutDB("db", osvs...)
	vPutDB("db2", osvs[0])
	vConfig("c.yml", nil, "db", "db2")
	args := []string{"--config=c.yml", "--use-dbs=false", "--parse-as=csv-row", "npm,,foo,1.0", "npm,,bar,1.0"}
	if zzsym.Flag("json") {
		args = append([]string{"--json"}, args...)
	}
	vTwice(args...)
}

// so do what is written to configs and said about it
func verifC25Update() {
	vPutDB("db", vSimple("V-"+zzsym.Str("id", 1, "ab"), "npm", "foo"), vSimple("V-"+zzsym.Str("id", 1, "ab"), "npm", "foo"))
	dirs := []string{"x", "y", "z"}[:2+zzsym.Choice("dirs", 2)]
	run := func(orders bool) (vOut, string) {
		args := []string{"--update-config-ignores", "--use-dbs=false"}
		for _, s := range dirs {
			zzsym.PutFile(s+"/p.csv", "npm,,foo,1.0\n")
			vConfig(s+"/.osv-detector.yml", []string{"old"}, "db")
			args = append(args, "csv-file:"+s+"/p.csv")
		}
		zzsym.MapOrders(orders)
		out := vRun(args...)
		zzsym.MapOrders(false)
		all := ""
		for _, s := range dirs {
			a, _ := zzsym.GetFile(s + "/.osv-detector.yml")
			all += a
		}

		return out, all
	}
	o1, a1 := run(false)
	o2, a2 := run(true)
	zzsym.Assert(a1 == a2, "the same findings give the same config")
	zzsym.Assert(o1.code == o2.code && o1.stdout == o2.stdout && o1.stderr == o2.stderr, "and the same report")
	zzsym.Observe(vItoa(o1.code))
}

// and the databases that are used
func verifC25Databases() {
	ecos := []string{"npm", "PyPI", "crates.io", "Maven"}
	n := 1 + zzsym.Choice("rows", 3+zzsym.Tier())
	args := []string{"--parse-as=csv-row"}
	for i := range n {
		args = append(args, ecos[zzsym.Choice("eco", len(ecos))]+",,p"+vItoa(i)+",1.0")
	}
	down := zzsym.Flag("down")
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		if down {
			return zzsym.Resp{Status: 404}
		}
		var es []zzsym.ZipEntry
		for _, e := range ecos {
			if strings.Contains(r.URL, "/"+e+"/") {
				for i := range n {
					es = append(es, zzsym.ZipEntry{Name: vItoa(i) + ".json", Data: vSimple("V-"+e, e, "p"+vItoa(i)).vJSON()})
				}
			}
		}

		return zzsym.Resp{Status: 200, Body: zzsym.MakeZip(es)}
	})
	vTwice(args...)
}

// more packages than are sorted by insertion
func verifC25Many() {
	n := 16
	path, doc := "", ""
	switch zzsym.Choice("file", 4) {
	case 0:
		path, doc = "package-lock.json", "{\"lockfileVersion\":2,\"packages\":{\"\":{}"
		for i := range n {
			doc += ",\"x" + vItoa(i) + "/node_modules/" + []string{"a", "b"}[i%2] + "\":{\"version\":\"1." + vItoa(i/4) + "\",\"resolved\":\"git+ssh://git@github.com/o/r.git#c" + vItoa(i) + "\"}"
		}
		doc += "}}"
	case 1:
		path, doc = "renv.lock", "{\"Packages\":{"
		for i := range n {
			if i > 0 {
				doc += ","
			}
			doc += "\"k" + vItoa(i) + "\":{\"Package\":\"" + []string{"a", "b", "c"}[i%3] + "\",\"Version\":\"" + vItoa(i/2) + ".0\",\"Repository\":\"CRAN\"}"
		}
		doc += "}}"
	case 2:
		path = "requirements.txt"
		for i := range n {
			doc += []string{"a", "b", "c"}[i%3] + "==" + vItoa(i) + ".0\n"
		}
	case 3:
		path, doc = "pubspec.lock", "packages:\n"
		for i := range n {
			doc += "  p" + vItoa(i*7%n) + ":\n    description: x\n    version: \"1.0\"\n"
		}
	}
	zzsym.PutFile(path, doc)
	args := []string{"--list-packages", path}
	if zzsym.Flag("json") {
		args = append([]string{"--json"}, args...)
	}
	vTwice(args...)
}
