package main

import (
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC19Cargo", verifC19Cargo)
var _ = zzsym.Reg("verifC19Composer", verifC19Composer)
var _ = zzsym.Reg("verifC19NuGet", verifC19NuGet)
var _ = zzsym.Reg("verifC19Renv", verifC19Renv)
var _ = zzsym.Reg("verifC19Pub", verifC19Pub)

func verifC19Cargo() {
	doc := "# generated\nversion = " + zzsym.Pick("fmt", "3", "4") + "\n"
	var ws []vWant
	for range zzsym.Choice("n", 4) {
		w := vWant{name: vName("name"), ver: vVerTxt("ver")}
		doc += "\n[[package]]\nname = \"" + w.name + "\"\nversion = \"" + w.ver + "\"\n"
		switch zzsym.Choice("more", 3) {
		case 1:
			doc += "source = \"registry+https://github.com/rust-lang/crates.io-index\"\nchecksum = \"abc\"\n"
		case 2:
			doc += "dependencies = [\n \"zz 1.0\",\n]\n"
		}
		ws = append(ws, w)
	}
	zzsym.PutFile("Cargo.lock", doc)
	vCheckList("Cargo.lock", ws, "crates.io")
}

func verifC19Composer() {
	var ws []vWant
	list := func(n string) string {
		var es []string
		for range zzsym.Choice(n, 3) {
			w := vWant{name: "v/" + zzsym.StrUpTo("name", 1, 1+zzsym.Tier(), "abz-"), ver: vVerTxt("ver")}
			if len(ws) == 0 {
				w.ver = zzsym.Pick("pre", "", "v", "dev-") + w.ver
			}
			e := "{\"name\":\"" + w.name + "\",\"version\":\"" + w.ver + "\""
			switch zzsym.Choice("dist", 3) {
			case 1:
				ref := zzsym.StrUpTo("ref", 2-2*zzsym.Tier(), 2+zzsym.Tier(), "ab1.")
				e += ",\"dist\":{\"type\":\"zip\",\"reference\":\"" + ref + "\"}"
				if !strings.Contains(ref, ".") {
					w.commit = ref
				}
			case 2:
				e += ",\"dist\":{\"reference\":\"abc\"},\"source\":{\"reference\":\"zzz\"}"
				w.commit = "abc"
			}
			ws = append(ws, w)
			es = append(es, e+"}")
		}

		return "[" + strings.Join(es, ",") + "]"
	}
	doc := "{\"packages\":" + list("n")
	if (len(ws) < 2 || zzsym.Tier() > 0) && zzsym.Flag("dev") {
		doc += ",\"packages-dev\":" + list("nd")
	}
	zzsym.PutFile("composer.lock", doc+"}")
	vCheckList("composer.lock", ws, "Packagist")
}

func verifC19NuGet() {
	var ws []vWant
	ver := zzsym.Pick("format", "1", "2", "0")
	doc := "{\"version\":" + ver + ",\"dependencies\":{"
	for f := range 1 + zzsym.Choice("frameworks", 2) {
		if f > 0 {
			doc += ","
		}
		doc += "\"net" + vItoa(f) + "\":{"
		for i := range zzsym.Choice("n", 3) {
			if i > 0 {
				doc += ","
			}
			w := vWant{name: vItoa(i) + zzsym.Str("name", 1, "aA."), ver: vVerTxt("ver")}
			doc += "\"" + w.name + "\":{\"type\":\"" + zzsym.Pick("type", "Direct", "Transitive") + "\",\"requested\":\"[1.0, )\",\"resolved\":\"" + w.ver + "\"}"
			ws = append(ws, w)
		}
		doc += "}"
	}
	zzsym.PutFile("packages.lock.json", doc+"}}")
	if ver != "1" {
		out, ps := vList("packages.lock.json")
		zzsym.Assert(out.code == 127 && len(ps) == 0, "an unknown format version is an error")

		return
	}
	vCheckList("packages.lock.json", ws, "NuGet")
}

func verifC19Renv() {
	var ws []vWant
	doc := "{\"R\":{\"Version\":\"4.2.3\"},\"Packages\":{"
	for i := range zzsym.Choice("n", 4) {
		if i > 0 {
			doc += ","
		}
		w := vWant{name: vItoa(i) + vName("name"), ver: vVerTxt("ver")}
		doc += "\"" + w.name + "\":{\"Package\":\"" + w.name + "\",\"Version\":\"" + w.ver + "\",\"Source\":\"" + zzsym.Pick("src", "Repository", "GitHub") + "\""
		switch zzsym.Choice("repo", 4) {
		case 0:
			ws = append(ws, w)
		case 1:
			doc += ",\"Repository\":\"CRAN\""
			ws = append(ws, w)
		case 2:
			doc += ",\"Repository\":\"BioC\""
		case 3: // much like CRAN
			doc += ",\"Repository\":\"" + zzsym.Pick("like", "CRAN", "cran") + zzsym.Str("like", 1, "Xs-/") + "\""
		}
		doc += "}"
	}
	zzsym.PutFile("renv.lock", doc+"}}")
	vCheckList("renv.lock", ws, "CRAN")
}

func verifC19Pub() {
	var ws []vWant
	doc := "# Generated by pub\npackages:\n"
	for i := range 1 + zzsym.Choice("n", 3) {
		w := vWant{name: vItoa(i) + zzsym.Str("name", 1, "ab_"), ver: vVerTxt("ver")}
		doc += "  \"" + w.name + "\":\n    dependency: " + zzsym.Pick("dep", "transitive", "\"direct main\"") + "\n"
		switch zzsym.Choice("desc", 4) {
		case 0:
			doc += "    description:\n      name: " + w.name[:1] + "\n      url: \"https://pub.dev\"\n    source: hosted\n"
		case 1:
			w.commit = zzsym.Str("ref", 2, "aB1")
			doc += "    description:\n      path: \".\"\n      ref: main\n      resolved-ref: \"" + w.commit + "\"\n      url: \"https://example.com\"\n    source: git\n"
		case 2:
			doc += "    description: flutter\n    source: sdk\n"
		case 3:
			doc += "    description:\n      path: \"../x\"\n      relative: true\n    source: path\n"
		}
		doc += "    version: \"" + w.ver + "\"\n"
		ws = append(ws, w)
	}
	zzsym.PutFile("pubspec.lock", doc+"sdks:\n  dart: \">=2.0\"\n")
	vCheckList("pubspec.lock", ws, "Pub")
}
