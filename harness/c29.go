package main

import (
	"sort"
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC29Tree", verifC29Tree)
var _ = zzsym.Reg("verifC29Bad", verifC29Bad)
var _ = zzsym.Reg("verifC29Extra", verifC29Extra)

// vTree serves files as a local directory or an archive and gives the config entry for it.
func vTree(kind int, files []zzsym.ZipEntry, wd string) {
	cfg := "extra-databases:\n  - url: "
	if kind == 0 {
		zzsym.PutDir("base/db")
		for _, f := range files {
			zzsym.PutFile("base/db/"+f.Name, f.Data)
		}
		cfg += "file:/base/db\n"
	} else {
		z := zzsym.MakeZip(files)
		zzsym.Network(func(r zzsym.Req) zzsym.Resp {
			if r.URL == "https://example.com/db.zip" {
				return zzsym.Resp{Status: 200, Body: z}
			}

			return zzsym.Resp{Status: 404}
		})
		cfg += "https://example.com/db.zip\n"
	}
	if wd != "" {
		cfg += "    working-directory: \"" + wd + "\"\n"
	}
	zzsym.PutFile("c.yml", cfg)
}

// every .json file below the working directory is an advisory, wherever it is, and nothing else is
func verifC29Tree() {
	var files []zzsym.ZipEntry
	var want []string
	dir := zzsym.Pick("dir", "", "ab", "ab/c", "aB")
	for i := range 1 + zzsym.Choice("files", 2+zzsym.Tier()) {
		var name, in string
		if i == 0 || zzsym.Tier() > 0 {
			name = zzsym.Str("name", 1, "aZ0.-_~#@ ") + zzsym.Pick("ext", ".json", ".txt", ".JSON", ".json.bak", "json")
			switch zzsym.Choice("where", 3) {
			case 1:
				in = zzsym.Pick("in", "ab/", "ab/c/", "x/ab/", "ab/c/d/e/", ".x/", "ab/.c/", "ab/x.json/", "_/", "ab/a b/", "ab/node_modules/", "testdata/")
			case 2:
				in = "a" + zzsym.StrUpTo("in", 1, 2, "bcAB-.") + "/"
			}
		}
		if i > 0 && zzsym.Tier() == 0 {
			name = "z" + zzsym.Pick("ext", ".json", ".txt")
			in = zzsym.Pick("in", "", "ab/", "ab-c/")
		}
		zzsym.Assume(in != "a./" && in != "a../")
		f := in + name
		id := "V-" + vItoa(i)
		for _, g := range files {
			zzsym.Assume(g.Name != f && !strings.HasPrefix(g.Name, f+"/") && !strings.HasPrefix(f, g.Name+"/"))
		}
		files = append(files, zzsym.ZipEntry{Name: f, Data: vSimple(id, "crates.io", "foo").vJSON()})
		if strings.HasSuffix(f, ".json") && (dir == "" || strings.HasPrefix(f, dir+"/")) {
			want = append(want, id)
		}
	}
	kind := zzsym.Choice("kind", 2)
	wd := dir
	if dir != "" {
		wd = zzsym.Pick("spelling", dir, dir+"/", "./"+dir)
	}
	vTree(kind, files, wd)
	zzsym.PutFile("p/Cargo.lock", vCargoFoo)
	out, d := vRunJSON("--config=c.yml", "--use-dbs=false", "p/Cargo.lock")
	sort.Strings(want)
	got := vFoundIDs(d, 0)
	zzsym.Assert(got == strings.Join(want, ","), "exactly the .json files below the working directory are loaded")
	if len(want) > 0 {
		zzsym.Assert(out.code == 1 && vHas(out.stderr, "("+vItoa(len(want))+" vulnerabilit"), "and counted")
	}
	zzsym.Observe(got)
}

// a file that is no advisory does not hide the others
func verifC29Bad() {
	n := 2 + zzsym.Tier()
	var files []zzsym.ZipEntry
	var want []string
	kind := zzsym.Choice("kind", 2)
	for i := range n {
		id := "V-" + zzsym.Str("id", 1, "0123456789")
		name := zzsym.Pick("in", "", "d/") + vItoa(i) + ".json"
		f := zzsym.ZipEntry{Name: name, Data: vSimple(id, "crates.io", "foo").vJSON()}
		for _, w := range want {
			zzsym.Assume(w != id)
		}
		switch zzsym.Choice("what", 9) {
		case 0, 1:
			want = append(want, id)
		case 2:
			f.Data = ""
		case 3:
			f.Data = f.Data[:len(f.Data)-1]
		case 4:
			f.Data = "[" + f.Data + "]"
		case 5:
			f.Data = "not json"
		case 6:
			f.Data = strings.Replace(f.Data, "\"affected\":[", "\"affected\":[1,", 1)
		case 7:
			f.Data = "null"
		case 8:
			f.Bad = kind == 1
			if kind == 0 {
				f.Data = "\x00"
			}
		}
		files = append(files, f)
	}
	vTree(kind, files, "")
	zzsym.PutFile("p/Cargo.lock", vCargoFoo)
	out, d := vRunJSON("--config=c.yml", "--use-dbs=false", "p/Cargo.lock")
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 1 {
		zzsym.Assert(false, "the package is reported")

		return
	}
	got := d.Results[0].Packages[0].Vulnerabilities
	zzsym.Assert(len(got) == len(want), "nothing but the advisories is loaded")
	for _, id := range want {
		zzsym.Assert(vHasID(got, id), "a file that is no advisory does not hide the others")
	}
	zzsym.Assert((out.code == 1) == (len(want) > 0), "findings give 1")
	zzsym.Observe(vIDs(got))
}

// what else an advisory may say does not matter, and what it leaves out neither
func verifC29Extra() {
	v := vVersion("v", false)
	fix := vVersion("fix", false)
	rng := "{\"type\":\"SEMVER\",\"events\":[{\"introduced\":\"0\"},{\"fixed\":\"" + fix.s + "\"}]}"
	pkg := "\"package\":{\"ecosystem\":\"crates.io\",\"name\":\"foo\""
	s := "{"
	switch zzsym.Choice("head", 7) {
	case 0:
		s += "\"id\":\"V-1\",\"modified\":\"2024-01-01T00:00:00Z\","
	case 1:
		s += "\"schema_version\":\"1.6.0\",\"id\":\"V-1\",\"published\":\"2020-01-01T00:00:00.123Z\",\"modified\":\"2024-01-01T00:00:00.5Z\",\"aliases\":[],"
	case 2:
		s += "\"aliases\":null,\"id\":\"V-1\",\"summary\":\"\",\"details\":\"a \\u00e9 \\\"b\\\" \\\\ \\n\",\"references\":[{\"type\":\"WEB\",\"url\":\"https://example.com\"}],"
	case 3:
		s += "\"id\":\"V-1\",\"severity\":[{\"type\":\"CVSS_V3\",\"score\":\"CVSS:3.1/AV:N\"}],\"database_specific\":{\"id\":\"V-2\",\"affected\":[],\"n\":1.5e3},"
	case 4:
		s += " \n\t\"id\" : \"V-1\" , \"credits\":[{\"name\":\"x\",\"contact\":[\"y\"]}],\"related\":[\"V-3\"],\"upstream\":[\"V-4\"],"
	case 5:
		s += "\"id\":\"V-1\","
	case 6:
		s += "\"id\":\"V-1\",\"aliases\":[\"W-1\"],"
	}
	s += "\"affected\":["
	switch zzsym.Choice("before", 5) {
	case 1:
		s += "{\"package\":{\"ecosystem\":\"npm\",\"name\":\"foo\"},\"ranges\":[],\"versions\":[]},"
	case 2:
		s += "{\"package\":{\"ecosystem\":\"crates.io\",\"name\":\"other\"}},"
	case 3:
		s += "{\"ranges\":[{\"type\":\"GIT\",\"repo\":\"https://example.com\",\"events\":[{\"introduced\":\"0\"},{\"fixed\":\"abc\"}]}]},"
	case 4:
		s += "{\"package\":{\"ecosystem\":\"\",\"name\":\"\"}},"
	}
	s += "{" + pkg
	if zzsym.Flag("purl") {
		s += ",\"purl\":\"pkg:cargo/foo\""
	}
	s += "},"
	switch zzsym.Choice("extra", 4) {
	case 1:
		s += "\"database_specific\":{\"last_known_affected_version_range\":\"< 9\"},"
	case 2:
		s += "\"ecosystem_specific\":{\"imports\":[{\"path\":\"x\"}]},\"severity\":[],"
	case 3:
		s += "\"versions\":[],"
	}
	s += "\"ranges\":[" + zzsym.Pick("git", "", "{\"type\":\"GIT\",\"repo\":\"r\",\"events\":[{\"introduced\":\"0\"}]},") + rng + "]}]}"
	s += zzsym.Pick("end", "", "\n", " \n\n")
	vTree(zzsym.Choice("kind", 2), []zzsym.ZipEntry{{Name: "a.json", Data: s}}, "")
	zzsym.PutFile("p/Cargo.lock", "[[package]]\nname = \"foo\"\nversion = \""+v.s+"\"\n")
	out, d := vRunJSON("--config=c.yml", "--use-dbs=false", "p/Cargo.lock")
	hit := v.n < fix.n
	zzsym.Assert((vFoundIDs(d, 0) == "V-1") == hit && (vFoundIDs(d, 0) == "") == !hit, "an advisory counts whatever else it says")
	zzsym.Assert((out.code == 1) == hit && (out.code == 0) == !hit, "findings give 1")
	zzsym.Observe(vShow(d))
}
