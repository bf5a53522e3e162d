package main

import (
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC15V1", verifC15V1)
var _ = zzsym.Reg("verifC15V2", verifC15V2)
var _ = zzsym.Reg("verifC15Commit", verifC15Commit)

// npm lockfiles of the first format: a tree of dependencies
func verifC15V1() {
	var ws []vWant
	total := 0
	var tree func(depth int) string
	tree = func(depth int) string {
		most := 3
		if depth > 0 {
			most = 2
		}
		if zzsym.Tier() == 0 {
			most = min(most, 4-total)
		}
		var es []string
		for i := range zzsym.Choice("n", max(most, 1)) {
			total++
			w := vWant{name: vItoa(i) + zzsym.Str("name", 1, "ab-"), ver: vVerTxt("ver")}
			if (total < 3 || zzsym.Tier() > 0) && zzsym.Flag("scoped") {
				w.name = "@s/" + w.name
			}
			key, val := w.name, w.ver
			kinds := 5
			if total > 1 && zzsym.Tier() == 0 {
				kinds = 2
			}
			switch zzsym.Choice("kind", kinds) {
			case 0:
			case 1: // installed under another name
				if total == 1 {
					w.ver += zzsym.Pick("asuffix", "", "-a.1")
				}
				key, val = "alias"+vItoa(total), "npm:"+w.name+"@"+w.ver
			case 2: // from a repository
				w.commit, w.ver = zzsym.Str("commit", 2, "ab1"), ""
				val = zzsym.Pick("git", "git+ssh://git@github.com/o/r.git#", "github:o/r#", "git+https://github.com/o/r.git#", "git://x.com/r#") + w.commit
			case 3:
				w.ver = ""
				val = "file:../x"
			case 4:
				val = w.ver + zzsym.Pick("suffix", "-beta.1", "+build")
				w.ver = val
			}
			e := "\"" + key + "\":{\"version\":\"" + val + "\""
			if total == 1 && zzsym.Flag("dev") {
				e += ",\"dev\":true,\"requires\":{\"zz\":\"^1.0\"}"
			}
			if depth < 2 && zzsym.Flag("nested") {
				e += ",\"dependencies\":" + tree(depth+1)
			}
			es = append(es, e+"}")
			ws = append(ws, w)
		}

		return "{" + strings.Join(es, ",") + "}"
	}
	doc := "{\"name\":\"me\",\"version\":\"9.9\",\"lockfileVersion\":1,\"dependencies\":" + tree(0) + "}"
	zzsym.PutFile("package-lock.json", doc)
	vCheckList("package-lock.json", ws, "npm")
}

// npm lockfiles since the second format: packages by path
func verifC15V2() {
	var ws []vWant
	es := []string{"\"\":{\"name\":\"me\",\"version\":\"9.9\",\"dependencies\":{\"zz\":\"^1.0\"}}"}
	used := ""
	for i := range zzsym.Choice("n", 4) {
		w := vWant{name: zzsym.Str("name", 1, "ab-"), ver: vVerTxt("ver")}
		w.name = vItoa(i%2) + w.name // names may repeat
		if zzsym.Flag("scoped") {
			w.name = "@s/" + w.name
		}
		path := "node_modules/" + w.name
		if i > 1 {
			path = "node_modules/x/node_modules/" + w.name
		}
		e := "\"version\":\"" + w.ver + "\""
		kinds := 7
		if i > 1 && zzsym.Tier() == 0 {
			kinds = 2
		}
		if i == 0 && zzsym.Flag("pre") {
			w.ver += "-a.1+b"
			e = "\"version\":\"" + w.ver + "\""
		}
		switch zzsym.Choice("kind", kinds) {
		case 0:
			e += ",\"resolved\":\"https://registry.npmjs.org/x/-/x-1.0.tgz\",\"integrity\":\"sha512-x\""
		case 1: // installed under another name
			path = "node_modules/alias" + vItoa(i)
			e += ",\"name\":\"" + w.name + "\""
		case 2:
			w.commit = zzsym.Str("commit", 2, "ab1")
			e += ",\"resolved\":\"git+ssh://git@github.com/o/r.git#" + w.commit + "\""
		case 3:
			e += ",\"dev\":true,\"optional\":true,\"peer\":true"
		case 4: // a workspace
			path = "packages/" + w.name
		case 5:
			w.ver = ""
			e = "\"resolved\":\"packages/x\",\"link\":true"
		case 6: // a workspace, and the link to it
			es = append(es, "\""+path+"\":{\"resolved\":\"packages/"+w.name+"\",\"link\":true}")
			path = "packages/" + w.name
		}
		used += path
		es = append(es, "\""+path+"\":{"+e+"}")
		ws = append(ws, w)
	}
	doc := "{\"name\":\"me\",\"version\":\"9.9\",\"lockfileVersion\":" + zzsym.Pick("format", "2", "3") + ",\"packages\":{" + strings.Join(es, ",") + "}"
	if zzsym.Flag("both") { // kept for old clients, not to be used
		doc += ",\"dependencies\":{\"old\":{\"version\":\"0.1\"}}"
	}
	zzsym.PutFile("package-lock.json", doc+"}")
	vCheckList("package-lock.json", ws, "npm")
}

// where a package comes from a repository, its commit is found
func verifC15Commit() {
	c := zzsym.StrUpTo("commit", 1, 3, "abf019")
	host := zzsym.Pick("host", "github.com", "gitlab.com", "bitbucket.org", "example.com")
	short := strings.Split(host, ".")[0]
	res := ""
	want := c
	switch zzsym.Choice("form", 15) {
	case 0:
		res = "git+ssh://git@" + host + "/o/r.git#" + c
	case 1:
		res = "git+https://" + host + "/o/r.git#" + c
	case 2:
		res = "git://" + host + "/o/r#" + c
	case 3:
		res = "ssh://git@" + host + "/o/r#" + c
	case 4:
		res = "https://" + host + "/o/r.git#" + c
	case 5:
		res = "https://codeload.github.com/o/r-x.y/tar.gz/" + c
	case 6:
		if short == "example" {
			return
		}
		res = short + ":o/r#" + c
	case 7: // a plain link is only understood for known hosts
		res = "https://" + host + "/o/r#" + c
		if host == "example.com" {
			want = ""
		}
	case 8:
		res = "https://registry.npmjs.org/r/-/r-" + c + ".tgz"
		want = ""
	case 9:
		res = "https://" + host + "/o/r?ref=" + c
		if host == "example.com" {
			want = ""
		}
	case 10:
		res = "https://registry.yarnpkg.com/r/-/r-1.0.tgz#" + c
		want = ""
	case 11:
		res = "https://" + host + "/o/r.git#commit=" + c
	case 12: // who asks, and where
		res = zzsym.Pick("scheme", "https", "git+https", "git+ssh", "git", "ssh") + "://me:t%40k~n+@" + host + ":8080/~o/a+b/r.git#" + c
	case 13:
		res = "https://" + host + "/o/r?" + zzsym.Pick("query", "ref="+c+"&x=1", "x=1&ref="+c, "ref="+c+"#main")
		if host == "example.com" {
			want = ""
		}
	case 14:
		res = "https://codeload.github.com/" + zzsym.Pick("owner", "o", "o-1", "O_o", "o.x") + "/" + zzsym.Pick("repo", "r", "r.js", "r-2", "R_r") + "/tar.gz/" + c
	}
	if zzsym.Flag("yarn") {
		zzsym.PutFile("yarn.lock", "\n\"foo@x\":\n  version \"1.0\"\n  resolved \""+res+"\"\n")
		vCheckList("yarn.lock", []vWant{{"foo", "1.0", want}}, "npm")

		return
	}
	zzsym.PutFile("package-lock.json", "{\"lockfileVersion\":2,\"packages\":{\"node_modules/foo\":{\"version\":\"1.0\",\"resolved\":\""+res+"\"}}}")
	vCheckList("package-lock.json", []vWant{{"foo", "1.0", want}}, "npm")
}
