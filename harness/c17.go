package main

import (
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC17Poetry", verifC17Poetry)
var _ = zzsym.Reg("verifC17Pdm", verifC17Pdm)
var _ = zzsym.Reg("verifC17Uv", verifC17Uv)
var _ = zzsym.Reg("verifC17Pylock", verifC17Pylock)
var _ = zzsym.Reg("verifC17Pipenv", verifC17Pipenv)

func verifC17Poetry() {
	doc := "# generated\n"
	var ws []vWant
	for range zzsym.Choice("n", 4) {
		w := vWant{name: vName("name"), ver: vVerTxt("ver")}
		doc += "[[package]]\nname = \"" + w.name + "\"\nversion = \"" + w.ver + "\"\ndescription = \"\"\noptional = " + zzsym.Pick("opt", "false", "true") + "\n"
		if len(ws) > 1 && zzsym.Tier() == 0 {
			ws = append(ws, w)

			continue
		}
		switch zzsym.Choice("more", 4) {
		case 1:
			doc += "category = \"dev\"\n\n[package.dependencies]\nzz = \"*\"\n\n"
		case 2:
			w.commit = zzsym.Str("commit", 2, "ab1")
			doc += "\n[package.source]\ntype = \"git\"\nurl = \"https://example.com\"\nreference = \"main\"\nresolved_reference = \"" + w.commit + "\"\n\n"
		case 3:
			doc += "\n[package.source]\ntype = \"legacy\"\nurl = \"https://example.com\"\nreference = \"x\"\n\n"
		}
		ws = append(ws, w)
	}
	doc += "\n[metadata]\nlock-version = \"2.0\"\n"
	zzsym.PutFile("poetry.lock", doc)
	vCheckList("poetry.lock", ws, "PyPI")
}

func verifC17Pdm() {
	doc := "[metadata]\nlock_version = \"4.4\"\n\n"
	var ws []vWant
	for range zzsym.Choice("n", 4) {
		w := vWant{name: vName("name"), ver: vVerTxt("ver")}
		doc += "[[package]]\nname = \"" + w.name + "\"\nversion = \"" + w.ver + "\"\n"
		switch zzsym.Choice("more", 3) {
		case 1:
			doc += "groups = [\"" + zzsym.Pick("group", "default", "dev") + "\"]\nsummary = \"x\"\n"
		case 2:
			w.commit = zzsym.Str("commit", 2, "ab1")
			doc += "git = \"https://example.com\"\nref = \"main\"\nrevision = \"" + w.commit + "\"\n"
		}
		ws = append(ws, w)
	}
	zzsym.PutFile("pdm.lock", doc)
	vCheckList("pdm.lock", ws, "PyPI")
}

func verifC17Uv() {
	doc := "version = 1\nrequires-python = \">=3.8\"\n\n"
	var ws []vWant
	for range zzsym.Choice("n", 4) {
		w := vWant{name: vName("name"), ver: vVerTxt("ver")}
		doc += "[[package]]\nname = \"" + w.name + "\"\nversion = \"" + w.ver + "\"\n"
		kinds := 8
		if len(ws) > 1 && zzsym.Tier() == 0 {
			kinds = 2
		}
		switch zzsym.Choice("source", kinds) {
		case 0:
			doc += "source = { registry = \"https://pypi.org/simple\" }\n"
		case 1: // the project itself
			doc += "source = { virtual = \".\" }\n"

			continue
		case 2:
			w.commit = zzsym.Str("commit", 2, "ab1")
			if zzsym.Flag("norev") {
				w.commit = ""
				doc += "source = { git = \"https://example.com/x?rev=main\" }\n"
			} else {
				doc += "source = { git = \"https://example.com/x?rev=main#" + w.commit + "\" }\n"
			}
		case 3:
			doc += "source = { virtual = \"sub\" }\n"
		case 4:
			doc += "source = { registry = \"https://pypi.org/simple\" }\n\n[package.optional-dependencies]\ndev = [\n    { name = \"zz\" },\n]\n"
		case 5:
		case 6: // the project itself
			doc += "source = { editable = \".\" }\n"

			continue
		case 7:
			doc += "source = { editable = \"sub\" }\n"
		}
		ws = append(ws, w)
	}
	zzsym.PutFile("uv.lock", doc)
	vCheckList("uv.lock", ws, "PyPI")
}

func verifC17Pylock() {
	doc := "lock-version = \"1.0\"\ncreated-by = \"pip\"\n\n"
	var ws []vWant
	for range zzsym.Choice("n", 4) {
		w := vWant{name: vName("name"), ver: vVerTxt("ver")}
		doc += "[[packages]]\nname = \"" + w.name + "\"\n"
		kinds := 6
		if len(ws) > 1 && zzsym.Tier() == 0 {
			kinds = 2
		}
		switch zzsym.Choice("source", kinds) {
		case 0:
			doc += "version = \"" + w.ver + "\"\n"
		case 1: // the project itself
			doc += "directory = { path = \".\" }\n"

			continue
		case 2:
			w.commit = zzsym.Str("commit", 2, "ab1")
			w.ver = ""
			doc += "[packages.vcs]\ntype = \"git\"\nurl = \"https://example.com\"\ncommit-id = \"" + w.commit + "\"\n"
		case 3:
			doc += "version = \"" + w.ver + "\"\ndirectory = { path = \".\" }\n"
		case 4:
			w.ver = ""
			doc += "directory = { path = \"./sub\" }\n"
		case 5:
			doc += "version = \"" + w.ver + "\"\n\n[[packages.wheels]]\nname = \"x.whl\"\n"
		}
		ws = append(ws, w)
	}
	zzsym.PutFile("pylock.toml", doc)
	vCheckList("pylock.toml", ws, "PyPI")
}

func verifC17Pipenv() {
	var ws []vWant
	sect := func(n string, most int) string {
		var es []string
		for i := range zzsym.Choice(n, most) {
			w := vWant{name: vItoa(i) + zzsym.Str("name", 1, "ab-"), ver: vVerTxt("ver")}
			switch zzsym.Choice("kind", 3) {
			case 0:
				es = append(es, "\""+w.name+"\":{\"hashes\":[\"sha256:x\"],\"version\":\"=="+w.ver+"\"}")
				ws = append(ws, w)
			case 1:
				es = append(es, "\""+w.name+"\":{\"index\":\"pypi\",\"markers\":\"python_version >= '3'\",\"version\":\"=="+w.ver+"\"}")
				ws = append(ws, w)
			case 2: // without a version there is nothing to check
				es = append(es, "\""+w.name+"\":{\"git\":\"https://example.com\",\"ref\":\"abc\"}")
			}
		}

		return "{" + strings.Join(es, ",") + "}"
	}
	doc := "{\"_meta\":{\"sources\":[]},\"default\":" + sect("n", 3) + ",\"develop\":" + sect("nd", 3) + "}"
	zzsym.PutFile("Pipfile.lock", doc)
	vCheckList("Pipfile.lock", ws, "PyPI")
}
