package main

import (
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC21Require", verifC21Require)
var _ = zzsym.Reg("verifC21Replace", verifC21Replace)
var _ = zzsym.Reg("verifC22Pom", verifC22Pom)
var _ = zzsym.Reg("verifC22Version", verifC22Version)

// every required module is listed, whichever way it is written
func verifC21Require() {
	var ws []vWant
	doc := "module example.com/m\n\ngo 1.20\n\n"
	n := zzsym.Choice("n", 4)
	block := zzsym.Flag("block")
	if block {
		doc += "require (\n"
	}
	for i := range n {
		w := vWant{name: "x.y/" + zzsym.Str("name", 1, "abZ-") + vItoa(i)}
		ver := ""
		if i == 0 {
			switch zzsym.Choice("form", 4) {
			case 0:
				ver = "0." + zzsym.Str("v", 1, "0123456789") + ".0"
			case 1:
				ver = "1.0.0-rc." + zzsym.Str("v", 1, "0123456789")
			case 2:
				ver = "0.0.0-2020010100000" + zzsym.Str("v", 1, "0123456789") + "-abcdefabcdef"
			case 3:
				ver = "2." + zzsym.Str("v", 1, "0123456789") + ".0+incompatible"
			}
		} else {
			ver = "1." + zzsym.Str("v", 1, "0123456789") + ".0"
		}
		w.ver = ver
		tail := zzsym.Pick("tail", "", " // indirect", " // v9.9.9")
		if block {
			doc += "\t" + w.name + " v" + ver + tail + "\n"
		} else {
			doc += "require " + w.name + " v" + ver + tail + "\n"
		}
		ws = append(ws, w)
	}
	if block {
		doc += ")\n"
	}
	doc += "\nexclude x.y/none v1.0.0\n\nretract v1.0.1 // bad\n"
	zzsym.PutFile("go.mod", doc)
	vCheckList("go.mod", ws, "Go")
}

// replacements apply to what is required, once
func verifC21Replace() {
	mods := []string{"x.y/a", "x.y/b"}
	d := zzsym.Str("v", 1, "0123456789")
	vers := []string{"1." + d + ".0", "1.1.0"}
	doc := "module example.com/m\n\nrequire (\n\tx.y/a v" + vers[0] + "\n\tx.y/b v" + vers[1] + "\n)\n\n"
	type rep struct {
		from     int
		specific bool
		hit      bool
		to, ver  string
	}
	var reps []rep
	for range zzsym.Choice("n", 3+zzsym.Tier()) {
		r := rep{from: zzsym.Choice("from", 3)}
		old := "x.y/none"
		if r.from < 2 {
			old = mods[r.from]
		}
		r.hit = r.from < 2
		switch zzsym.Choice("left", 3) {
		case 0:
		case 1:
			r.specific = true
			if r.from < 2 {
				old += " v" + vers[r.from]
			} else {
				old += " v1.0.0"
			}
		case 2: // another version of it
			r.specific = true
			r.hit = false
			old += " v1.9.9"
		}
		for _, p := range reps { // only one replacement may be given for one thing
			zzsym.Assume(!(p.from == r.from && p.specific == r.specific && p.hit == r.hit))
		}
		switch zzsym.Choice("right", 4) {
		case 0:
			r.to, r.ver = "x.y/c", "2."+zzsym.Str("rv", 1, "0123456789")+".0"
		case 1: // another required module
			r.to, r.ver = mods[1], "1.5.0"
		case 2: // a directory
			r.to = "./local"
		case 3:
			r.to, r.ver = mods[0], "1.6.0"
		}
		doc += "replace " + old + " => " + r.to
		if r.ver != "" {
			doc += " v" + r.ver
		}
		doc += "\n"
		reps = append(reps, r)
	}
	var ws []vWant
	for i, m := range mods {
		w := vWant{name: m, ver: vers[i]}
		for _, specific := range []bool{false, true} { // the more specific replacement wins
			for _, r := range reps {
				if r.hit && r.from == i && r.specific == specific {
					w = vWant{name: r.to, ver: r.ver}
				}
			}
		}
		ws = append(ws, w)
	}
	zzsym.PutFile("go.mod", doc)
	vCheckList("go.mod", ws, "Go")
}

func vDep(name, ver string) string {
	s := "<dependency><groupId>g</groupId><artifactId>" + name + "</artifactId>"
	if ver != "" {
		s += "<version>" + ver + "</version>"
	}

	return s + "<scope>test</scope></dependency>"
}

// how the version of one dependency is worked out
func verifC22Version() {
	a := zzsym.Str("a", 1, "0123456789") + ".0"
	b := zzsym.Str("b", 1, "0123456789") + zzsym.Pick("btail", "", ".Final", "-SNAPSHOT")
	ver, want := "", ""
	switch zzsym.Choice("form", 20) {
	case 0:
		ver, want = a, a
	case 1:
		ver, want = "${a}", a
	case 2:
		ver, want = "${b.c}", b
	case 3:
		ver, want = "${a}.${b.c}", a+"."+b
	case 4:
		ver, want = "${a}.Final", a+".Final"
	case 5:
		ver, want = "1.${b.c}", "1."+b
	case 6:
		ver, want = "${"+zzsym.Pick("none", "none", "A", "b", "project.version", "env.x", "a.b")+"}", "0"
	case 7:
		ver, want = "["+a+",9.9)", a
	case 8:
		ver, want = "["+a+"]", a
	case 9:
		ver, want = "(,"+a+"]", "0"
	case 10:
		ver, want = "("+a+",)", a
	case 11:
		ver, want = "["+a+",1.5),[2.0,)", a
	case 12:
		ver, want = "${range}", a
	case 13:
		ver, want = "", "0"
	case 14: // an empty property
		ver, want = a+"${e}."+b, a+"."+b
	case 15:
		ver, want = "${e}"+a+"${e}", a
	case 16: // part of it is not known
		ver, want = a+"-${none}", "0"
	case 17:
		ver, want = "${none}.${a}", "0"
	case 18: // names that look like something else
		ver, want = "${project."+zzsym.Pick("own", "x", "a", "version")+"}", "6.1"
	case 19: // the last one counts
		ver, want = "${twice}", b
	}
	props := "<properties>\n<a>" + a + "</a>\n<b.c>" + b + "</b.c><!-- c --><e></e>\n<range>[" + a + ",8)</range><twice>1</twice><twice>" + b + "</twice></properties>\n"
	if vHas(ver, "${project.") && want != "0" {
		n := ver[2 : len(ver)-1]
		props = strings.Replace(props, "<a>", "<"+n+">6.1</"+n+"><a>", 1)
	}
	dep := vDep("x", ver)
	doc := zzsym.Pick("head", "", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n") + "<project>\n<modelVersion>4.0.0</modelVersion><version>7.7</version>\n"
	switch zzsym.Choice("place", 3) {
	case 0:
		doc += props + "<dependencies>" + dep + "</dependencies>"
	case 1:
		doc += "<dependencies>\n  " + dep + "\n</dependencies>" + props
	case 2:
		doc += "<dependencyManagement><dependencies>" + dep + "</dependencies></dependencyManagement>" + props
	}
	zzsym.PutFile("pom.xml", doc+"\n</project>\n")
	vCheckList("pom.xml", []vWant{{"g:x", want, ""}}, "Maven")
}

// which dependencies are listed, and which version wins
func verifC22Pom() {
	names := []string{"a", "b", "c"}[:2+zzsym.Tier()]
	type use struct {
		name string
		ver  string // as written
		want string
	}
	// a version in one of its forms and what it stands for
	version := func(n, major string) (string, string) {
		d := major + "." + zzsym.Str(n, 1, "0123456789")
		switch zzsym.Choice(n+"form", 4) {
		case 1:
			return "[" + d + ",9)", d
		case 2:
			return "(," + d + "]", "0"
		case 3:
			return "${p}." + major, "7." + major
		}

		return d, d
	}
	var direct, managed []use
	for _, n := range names {
		if zzsym.Flag("direct") {
			u := use{name: n, want: "0"}
			if zzsym.Flag("versioned") {
				u.ver, u.want = version("dv", "1")
			}
			direct = append(direct, u)
		}
		if zzsym.Flag("managed") {
			u := use{name: n}
			u.ver, u.want = version("mv", "2")
			managed = append(managed, u)
		}
	}
	put := func(us []use) string {
		s := "<dependencies>\n"
		for _, u := range us {
			s += vDep(u.name, u.ver) + "\n"
		}

		return s + "</dependencies>\n"
	}
	dm := "<dependencyManagement>\n" + put(managed) + "</dependencyManagement>\n"
	doc := "<project>\n<properties><p>7</p></properties>\n<build><plugins><plugin><artifactId>p</artifactId>" + put([]use{{"plug", "1.0", ""}}) + "</plugin></plugins></build>\n"
	if zzsym.Flag("first") {
		doc += dm + put(direct)
	} else {
		doc += put(direct) + dm
	}
	var ws []vWant
	for _, n := range names {
		listed, ver := false, "0"
		for _, u := range managed {
			if u.name == n {
				listed, ver = true, u.want
			}
		}
		for _, u := range direct {
			if u.name == n {
				if u.ver != "" || !listed {
					ver = u.want
				}
				listed = true
			}
		}
		if listed {
			ws = append(ws, vWant{"g:" + n, ver, ""})
		}
	}
	zzsym.PutFile("pom.xml", doc+"</project>\n")
	vCheckList("pom.xml", ws, "Maven")
}
