package main

import (
	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC20Gemfile", verifC20Gemfile)
var _ = zzsym.Reg("verifC20Mix", verifC20Mix)
var _ = zzsym.Reg("verifC20Gradle", verifC20Gradle)

// Gemfile.lock: gems from rubygems, repositories and paths, with their dependencies and the trailing sections
func verifC20Gemfile() {
	var ws []vWant
	eol := zzsym.Pick("eol", "\n", "\r\n")
	doc := ""
	n := 1 + zzsym.Choice("sections", 2+zzsym.Tier())
	wide := n <= 1+zzsym.Tier() // the spellings vary in the short files
	for i := range n {
		commit := ""
		kind := zzsym.Choice("source", 5)
		if kind == 3 { // an empty one
			doc += "GEM" + eol + "  remote: https://rubygems.org/" + eol + "  specs:" + eol + eol

			continue
		}
		switch kind {
		case 0:
			doc += "GEM" + eol + "  remote: https://rubygems.org/" + eol
		case 1:
			commit = zzsym.Str("commit", 2, "ab1")
			remote := "https://github.com/o/r.git"
			if wide {
				remote = zzsym.Pick("remote", remote, "git://x/GIT.git")
			}
			doc += "GIT" + eol + "  remote: " + remote + eol + "  revision: " + commit + eol
			if zzsym.Flag("branch") {
				doc += "  " + zzsym.Pick("ref", "branch: main", "tag: v1.0", "branch: PATH-fix", "ref: GEMS") + eol
			}
		case 2:
			doc += "PATH" + eol + "  remote: ." + eol
		case 4:
			doc += "PLUGIN SOURCE" + eol + "  remote: https://x.com/" + eol + "  type: mercurial" + eol
		}
		doc += "  specs:" + eol
		m := 1
		if i == 0 {
			m += zzsym.Choice("gems", 2)
		}
		for j := range m {
			w := vWant{name: zzsym.Str("name", 1, "ab_") + vItoa(i) + vItoa(j), ver: vVerTxt("ver"), commit: commit}
			if j == 0 && i == 0 && wide {
				w.name += zzsym.Pick("suffix", "", "-x", ".y", "GEM", "PATH", "-GIT")
				w.ver += zzsym.Pick("tail", "", ".beta.2", ".0")
			} else if j == 0 {
				w.name += zzsym.Pick("suffix", "", "GIT")
			}
			doc += "    " + w.name + " (" + w.ver
			if kind == 0 && j == 0 && zzsym.Flag("platform") {
				if i == 0 {
					doc += "-" + zzsym.Pick("arch", "x86_64-linux", "java", "386-mingw32", "")
				} else {
					doc += "-x86_64-linux"
				}
			}
			doc += ")" + eol
			if i+j == 0 && zzsym.Flag("deps") {
				doc += "      zz (>= 1.0, < 3)" + eol + "      yy" + eol
			}
			ws = append(ws, w)
		}
		doc += eol
	}
	if zzsym.Flag("rest") {
		doc += "PLATFORMS" + eol + "  ruby" + eol + "  x86_64-linux" + eol + eol
		doc += "DEPENDENCIES" + eol + "  a00 (= 1.0)" + eol + "  zz!" + eol + "    deep (1.0)" + eol + eol
		doc += "CHECKSUMS" + eol + "  a00 (1.0) sha256=ab" + eol + "    deep (1.0)" + eol + eol
		doc += "RUBY VERSION" + eol + "   ruby 3.0.0p0" + eol + "    deep (1.0)" + eol + eol
		doc += "BUNDLED WITH" + eol + "   2.3.0" + eol
	}
	zzsym.PutFile("Gemfile.lock", doc)
	vCheckList("Gemfile.lock", ws, "RubyGems")
}

func verifC20Mix() {
	var ws []vWant
	eol := zzsym.Pick("eol", "\n", "\r\n")
	doc := "%{" + eol
	for i := range zzsym.Choice("n", 4) {
		w := vWant{name: zzsym.Str("name", 1, "a_9") + vItoa(i%2), ver: vVerAt("ver", i)}
		if i == 0 {
			w.name += zzsym.Pick("end", "", "git", "_hex")
		}
		kinds := 3
		if i > 1 {
			kinds = 1
		}
		doc += "  \"" + w.name + "\": {"
		switch zzsym.Choice("kind", kinds) {
		case 0:
			w.commit = zzsym.Str("hash", 2, "ab1")
			doc += ":hex, :" + w.name + ", \"" + w.ver + "\", \"" + w.commit + "\", [:mix], [], \"hexpm\", \"cd\"}"
		case 1: // with dependencies of its own
			w.commit = zzsym.Str("hash", 2, "ab1")
			doc += ":hex, :" + zzsym.Pick("other", "other", "git") + ", \"" + w.ver + "\", \"" + w.commit + "\", [:make, :mix], [{:zz, \"~> 1.0 or ~> 2.0\", [hex: :zz, repo: \"hexpm\", optional: true]}, {:yy, \"1.0\", [hex: :yy]}], \"hexpm\", \"cd\"}"
		case 2:
			w.commit, w.ver = zzsym.Str("commit", 2, "ab1"), ""
			doc += ":git, \"https://x.com/r.git\", \"" + w.commit + "\", [" + zzsym.Pick("opts", "", "branch: \"main\"", "ref: \"ab\", submodules: true") + "]}"
		}
		doc += "," + eol
		ws = append(ws, w)
	}
	zzsym.PutFile("mix.lock", doc+"}"+eol)
	vCheckList("mix.lock", ws, "Hex")
}

func verifC20Gradle() {
	var ws []vWant
	eol := zzsym.Pick("eol", "\n", "\r\n")
	path := zzsym.Pick("file", "gradle.lockfile", "buildscript-gradle.lockfile")
	doc := "# This is a Gradle generated file for dependency locking." + eol
	n := zzsym.Choice("n", 4)
	for i := range n {
		w := vWant{name: zzsym.Str("group", 1, "a.-") + zzsym.Pick("sub", "", ".b") + ":" + zzsym.Str("name", 1, "b_-") + vItoa(i%2), ver: vVerTxt("ver")}
		if i == 0 {
			w.ver += zzsym.Pick("tail", "", ".Final", "-jre")
		}
		if i == 0 && zzsym.Flag("emptyish") {
			w.name = "empty" + w.name
		}
		line := ""
		skip := false
		kinds := 5
		if i > 1 {
			kinds = 1
		}
		switch zzsym.Choice("kind", kinds) {
		case 0:
			line = w.name + ":" + w.ver + "=compileClasspath,runtimeClasspath"
		case 1:
			line = "  " + w.name + ":" + w.ver + "=a "
		case 2:
			line = "# " + w.name + ":" + w.ver + "=a"
			skip = true
		case 3:
			line = "empty=annotationProcessor,x:y:1.0"
			skip = true
		case 4: // no configurations listed
			line = w.name + ":" + w.ver
		}
		doc += line
		if i < n-1 || !zzsym.Flag("noeol") {
			doc += eol
		}
		if !skip {
			ws = append(ws, w)
		}
	}
	zzsym.PutFile(path, doc)
	vCheckList(path, ws, "Maven")
}
