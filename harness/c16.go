package main

import (
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC16Pnpm", verifC16Pnpm)
var _ = zzsym.Reg("verifC16Pnpm9", verifC16Pnpm9)
var _ = zzsym.Reg("verifC16Bun", verifC16Bun)
var _ = zzsym.Reg("verifC16Yarn1", verifC16Yarn1)
var _ = zzsym.Reg("verifC16Yarn2", verifC16Yarn2)

// pnpm lockfiles up to version 6: packages by dependency path
func verifC16Pnpm() {
	var ws []vWant
	v6 := zzsym.Flag("v6")
	doc := "lockfileVersion: 5.4\n"
	if v6 {
		doc = "lockfileVersion: '6.0'\n"
	}
	doc += "\npackages:\n"
	n := 1 + zzsym.Choice("n", 3)
	for i := range n {
		w := vWant{name: vItoa(i) + zzsym.Str("name", 1, "ab-"), ver: vVerAt("ver", i)}
		if zzsym.Flag("scoped") {
			w.name = "@s/" + w.name
		}
		sep := "/"
		if v6 {
			sep = "@"
		}
		key := "/" + w.name + sep + w.ver
		more := ""
		kinds := 7
		if i > 1 && zzsym.Tier() == 0 {
			kinds = 2
		}
		switch zzsym.Choice("kind", kinds) {
		case 0:
			more = "    resolution: {integrity: sha512-x}\n"
		case 1: // with peers
			if v6 {
				key += zzsym.Pick("peers", "(peer@1.0)(other@2.0)", "(@t/peer@1.0)", "(peer@1.0)(@t/other@2.0(x@1.0))")
			} else {
				key += zzsym.Pick("peers", "_peer@1.0+other@2.0", "_@t+peer@1.0", "_abc_def")
			}
			more = "    resolution: {integrity: sha512-x}\n    dev: true\n"
		case 2: // from another registry
			key = "registry.x" + key
		case 3: // from a repository
			w.commit = zzsym.Str("commit", 2, "ab1")
			key = "github.com/o/r" + vItoa(i) + "/" + w.commit
			more = "    resolution: {tarball: \"https://codeload.github.com/o/r/tar.gz/" + w.commit + "\"}\n    name: \"" + w.name + "\"\n    version: \"" + w.ver + "\"\n"
		case 4:
			w.commit = zzsym.Str("commit", 2, "ab1")
			key = "git.x/o/r" + vItoa(i) + "/" + w.commit
			more = "    resolution: {commit: \"" + w.commit + "\", repo: \"ssh://git@x\", type: git}\n    name: \"" + w.name + "\"\n    version: \"" + w.ver + "\"\n"
		case 5:
			key = "file:sub" + vItoa(i)
			more = "    resolution: {directory: sub, type: directory}\n    name: \"" + w.name + "\"\n    version: \"" + w.ver + "\"\n"
		case 6: // nothing to check
			key = "file:sub" + vItoa(i)
			more = "    resolution: {directory: sub, type: directory}\n    name: \"" + w.name + "\"\n"
			doc += "  \"" + key + "\":\n" + more

			continue
		}
		if more == "" {
			more = "    dev: false\n"
		}
		doc += "  \"" + key + "\":\n" + more
		ws = append(ws, w)
	}
	zzsym.PutFile("pnpm-lock.yaml", doc)
	vCheckList("pnpm-lock.yaml", ws, "npm")
}

func verifC16Pnpm9() {
	var ws []vWant
	doc := "lockfileVersion: '9.0'\n\nimporters:\n  .:\n    dependencies:\n      zz:\n        specifier: ^1.0\n        version: 1.0\n\npackages:\n"
	for i := range 1 + zzsym.Choice("n", 3) {
		w := vWant{name: vItoa(i) + zzsym.Str("name", 1, "ab-"), ver: vVerAt("ver", i)}
		if zzsym.Flag("scoped") {
			w.name = "@s/" + w.name
		}
		key := w.name + "@" + w.ver
		more := "    resolution: {integrity: sha512-x}\n"
		switch zzsym.Choice("kind", 4) {
		case 0:
		case 1:
			more += "    engines: {node: '>=6'}\n"
		case 2:
			w.commit = zzsym.Str("commit", 2, "ab1")
			key = w.name + "@https://codeload.github.com/o/r/tar.gz/" + w.commit
			more = "    resolution: {tarball: \"https://codeload.github.com/o/r/tar.gz/" + w.commit + "\"}\n    version: \"" + w.ver + "\"\n"
		case 3:
			w.commit = zzsym.Str("commit", 2, "ab1")
			key = w.name + "@git+https://x.com/r#" + w.commit
			more = "    resolution: {commit: \"" + w.commit + "\", repo: \"https://x\", type: git}\n    version: \"" + w.ver + "\"\n"
		}
		doc += "  \"" + key + "\":\n" + more
		ws = append(ws, w)
	}
	doc += "\nsnapshots:\n  \"q@1.0(p@1.0)\":\n    dependencies:\n      p: 1.0\n"
	zzsym.PutFile("pnpm-lock.yaml", doc)
	vCheckList("pnpm-lock.yaml", ws, "npm")
}

func verifC16Bun() {
	var ws []vWant
	var es []string
	for i := range zzsym.Choice("n", 4) {
		w := vWant{name: vItoa(i) + zzsym.Str("name", 1, "ab-"), ver: vVerAt("ver", i)}
		if zzsym.Flag("scoped") {
			w.name = "@s/" + w.name
		}
		key := w.name
		val := w.name + "@" + w.ver
		rest := ", \"\", {}, \"sha512-x\""
		switch zzsym.Choice("kind", 5) {
		case 0:
		case 1:
			key = "alias" + vItoa(i)
		case 2:
			w.commit, w.ver = zzsym.Str("commit", 2, "ab1"), ""
			val = w.name + "@" + zzsym.Pick("git", "github:o/r#", "git+ssh://x.com/r#", "git+ssh://git@x.com/r#") + w.commit
			rest = ", {}, \"o-r-x\""
		case 3:
			w.ver = ""
			val = w.name + "@file:sub"
			if i == 0 {
				val = w.name + zzsym.Pick("file", "@file:sub", "@file:s@b", "@workspace:sub", "@link:sub", "@https://example.com/x.tgz")
			}
			rest = ", {}"
		case 4:
			key = "outer/" + w.name
			rest = ", \"\", { \"dependencies\": { \"zz\": \"^1.0\" } }, \"sha512-x\""
		}
		es = append(es, "    \""+key+"\": [\""+val+"\""+rest+"],\n")
		ws = append(ws, w)
	}
	doc := "{\n  \"lockfileVersion\": 1,\n  // a comment\n  \"workspaces\": { \"\": { \"name\": \"me\", }, },\n  \"packages\": {\n" + strings.Join(es, "\n") + "  }\n}\n"
	zzsym.PutFile("bun.lock", doc)
	vCheckList("bun.lock", ws, "npm")
}

func vYarnEnd(i, n int) string {
	if i == n-1 && zzsym.Flag("noeol") {
		return ""
	}

	return "\n"
}

func verifC16Yarn1() {
	var ws []vWant
	nl := zzsym.Pick("eol", "\n", "\r\n")
	doc := "# THIS IS AN AUTOGENERATED FILE. DO NOT EDIT THIS FILE DIRECTLY." + nl + "# yarn lockfile v1" + nl + nl + nl
	n := zzsym.Choice("n", 4)
	for i := range n {
		w := vWant{name: zzsym.Str("name", 1, "ab-"), ver: vVerAt("ver", i+max(0, n-2))}
		w.name = vItoa(i%2) + w.name
		head := w.name + "@^1.0"
		if zzsym.Flag("scoped") {
			w.name = "@s/" + w.name
			head = "\"" + w.name + "@^1.0\""
		}
		res := "https://registry.yarnpkg.com/x/-/x-1.0.tgz#abc"
		kinds := 5
		if i > 1 && zzsym.Tier() == 0 {
			kinds = 2
		}
		switch zzsym.Choice("kind", kinds) {
		case 0:
		case 1: // several requests for it
			head = "\"" + w.name + "@^1.0\", \"" + w.name + "@~1.0\""
		case 2: // installed under another name
			head = "\"alias@npm:" + w.name + "@^1.0\""
		case 3:
			w.commit = zzsym.Str("commit", 2, "ab1")
			head = "\"" + w.name + "@https://github.com/o/r.git\""
			res = "https://github.com/o/r.git#" + w.commit
		case 4:
			w.ver += zzsym.Pick("suffix", ".1", ".0", ".12")
		}
		doc += head + ":" + nl + "  version \"" + w.ver + "\"" + nl + "  resolved \"" + res + "\"" + nl
		if i == 0 && zzsym.Flag("deps") {
			doc += "  integrity sha512-x==" + nl + "  dependencies:" + nl + "    zz \"^1.0\"" + nl + "    version \"^9.9\"" + nl
		}
		if i < n-1 {
			doc += nl
		}
		ws = append(ws, w)
	}
	zzsym.PutFile("yarn.lock", doc)
	vCheckList("yarn.lock", ws, "npm")
}

func verifC16Yarn2() {
	var ws []vWant
	doc := "# This file is generated by running \"yarn install\"\n\n__metadata:\n  version: 6\n  cacheKey: 8\n\n"
	n := zzsym.Choice("n", 4)
	for i := range n {
		w := vWant{name: zzsym.Str("name", 1, "ab-"), ver: vVerAt("ver", i+max(0, n-2))}
		w.name = vItoa(i%2) + w.name
		if zzsym.Flag("scoped") {
			w.name = "@s/" + w.name
		}
		head := w.name + "@npm:^1.0"
		res := w.name + "@npm:" + w.ver
		kinds := 6
		if i > 1 && zzsym.Tier() == 0 {
			kinds = 2
		}
		skip := false
		switch zzsym.Choice("kind", kinds) {
		case 0:
		case 1:
			head += ", " + w.name + "@npm:~1.0"
		case 2:
			head = "alias@npm:" + w.name + "@^1.0"
		case 3:
			w.commit = zzsym.Str("commit", 2, "ab1")
			head = w.name + "@https://x.com/r.git"
			res = w.name + "@https://x.com/r.git#commit=" + w.commit
		case 4: // the project itself
			skip = true
			head = w.name + "@workspace:."
			res = head
		case 5: // another workspace
			head = w.name + "@workspace:" + zzsym.Pick("at", "sub", ".x", "sub/.", "./sub")
			res = head
		}
		doc += "\"" + head + "\":\n  version: " + w.ver + "\n  resolution: \"" + res + "\"\n"
		if i == 0 && zzsym.Flag("deps") {
			doc += "  dependencies:\n    zz: ^1.0\n    version: ^9.9\n  checksum: abc\n"
		}
		doc += "  languageName: node\n  linkType: hard\n" + vYarnEnd(i, n)
		if !skip {
			ws = append(ws, w)
		}
	}
	zzsym.PutFile("yarn.lock", doc)
	vCheckList("yarn.lock", ws, "npm")
}
