package main

import (
	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC18Line", verifC18Line)
var _ = zzsym.Reg("verifC18File", verifC18File)
var _ = zzsym.Reg("verifC18Include", verifC18Include)

// vReqName is a project name and its normal form.
func vReqName(n string, wide bool) (string, string) {
	c := zzsym.Str(n, 1, "abZ9")
	norm := c
	if c == "Z" {
		norm = "z"
	}
	if !wide {
		return c, norm
	}
	switch zzsym.Choice(n+"form", 5) {
	case 1:
		return c + "_x", norm + "-x"
	case 2:
		return c + "-.X", norm + "-x"
	case 3:
		return "A." + c, "a-" + norm
	case 4:
		return c + "--_9", norm + "-9"
	}

	return c, norm
}

// vReqSpec is the version part of a requirement and the lowest version it allows.
func vReqSpec(n string, wide bool) (string, string) {
	sp := zzsym.Pick(n+"space", "", " ")
	k := zzsym.Choice(n+"spec", 13)
	if k == 0 {
		return "", "0.0.0"
	}
	v := zzsym.Str(n, 1, "0123456789") + ".0"
	if wide {
		v = zzsym.Str(n, 1, "0123456789") + zzsym.Pick(n+"tail", ".0", ".1.dev2", "rc1", ".post1+x", "!2.0")
	}
	low := v
	s := ""
	switch k {
	case 12: // from somewhere else, at whatever version that is
		s = sp + "@" + sp + zzsym.Pick(n+"from", "https://example.com/x-"+v+".whl", "git+https://git@example.com/x.git@"+v+"#egg=x==1.0", "file:///x/y.zip")
		low = "0.0.0"
	case 1:
		s = "==" + sp + v
	case 2:
		s = ">=" + sp + v
	case 3:
		s = "~=" + sp + v
	case 4:
		s = "!=" + sp + v
		low = "0.0.0"
	case 5:
		s = ">=" + sp + v + ",<9.9"
	case 6:
		s = "<" + sp + "9.9, >=" + v
	case 7:
		s = "<=" + sp + v
		low = "0.0.0"
	case 8:
		s = "~=" + v + sp + ", !=" + sp + "9.9"
	case 9:
		s = "===" + sp + v
	case 10:
		s = "!=" + sp + "9.9,==" + v
	case 11:
		s = "<" + sp + v
		low = "0.0.0"
	}

	return sp + s, low
}

// every way to write one requirement: its name, its version and what surrounds it
func verifC18Line() {
	focus := zzsym.Choice("focus", 3)
	if zzsym.Tier() > 0 {
		focus = -1
	}
	name, norm := vReqName("name", focus <= 0)
	spec, low := vReqSpec("v", focus == 1 || focus < 0)
	extra := ""
	if focus != 1 {
		extra = zzsym.Pick("extra", "", "[x]", " [x,y_z]")
	}
	end, lead, eol := "", "", "\n"
	if focus != 0 {
		end = zzsym.Pick("end", "", "  ", " # note", " ; python_version >= \"3.8\"", "; sys_platform == 'win32'", " --hash=sha256:ab --hash=sha256:cd", "\t# a==1.0")
		eol = zzsym.Pick("eol", "\n", "\r\n", "")
	}
	if focus == 2 || focus < 0 {
		lead = zzsym.Pick("lead", "", "  ")
	}
	zzsym.PutFile("requirements.txt", lead+name+extra+spec+end+eol)
	vCheckList("requirements.txt", []vWant{{norm, low, ""}}, "PyPI")
}

// files of several lines, with comments, flags, paths and continued lines
func verifC18File() {
	var ws []vWant
	doc := ""
	eol := zzsym.Pick("eol", "\n", "\r\n")
	n := zzsym.Choice("n", 4)
	for i := range n {
		w := vWant{name: zzsym.Str("name", 1, "ab") + vItoa(i%2), ver: zzsym.Str("ver", 1, "0123456789") + ".0"}
		skip := false
		line := ""
		kinds := 13
		if i > 1 && zzsym.Tier() == 0 {
			kinds = 2
		}
		switch zzsym.Choice("kind", kinds) {
		case 0:
			line = w.name + "==" + w.ver
		case 1:
			line = "# " + w.name + "==" + w.ver
			skip = true
		case 2:
			line = w.name + "==" + w.ver + " # via x==1.0"
		case 3: // continued
			line = w.name + " \\" + eol + "  == \\" + eol + w.ver
		case 4:
			line = w.name + "==" + w.ver + " \\" + eol + "    --hash=sha256:ab \\" + eol + "    --hash=sha256:cd"
		case 5:
			line = zzsym.Pick("flag", "-i https://x/"+w.name, "--index-url=https://x/simple", "-e ./"+w.name, "--pre", "-c "+w.name+".txt")
			skip = true
		case 6:
			line = zzsym.Pick("path", "./"+w.name, "../x.whl", "/a/"+w.name+"-1.0.whl", "https://x.com/"+w.name+"==1.0.zip", "http://x.com/a.whl#egg=b==1.0")
			skip = true
		case 7:
			line = ""
			skip = true
		case 8:
			line = "   # via -r " + w.name + "==1.0"
			skip = true
		case 9: // the comment ends the requirement, not the continuation
			line = w.name + "==" + w.ver + " # x \\" + eol + "b==1.0"
		case 10:
			w.ver = "0.0.0"
			line = w.name
		case 11: // a comment needs a space before it
			w.ver += "#x"
			line = w.name + "==" + w.ver
		case 12:
			line = "  " + w.name + " >= " + w.ver + " , < 99"
		}
		doc += line
		if i < n-1 || !zzsym.Flag("noeol") {
			doc += eol
		}
		if !skip {
			ws = append(ws, w)
		}
	}
	zzsym.PutFile("requirements.txt", doc)
	vCheckList("requirements.txt", ws, "PyPI")
}

// files that include each other
func verifC18Include() {
	names := []string{"requirements.txt", "a.txt", "sub/b.txt"}
	from := [][]string{ // how each file names each other one
		{"requirements.txt", "a.txt", "sub/b.txt"},
		{"./requirements.txt", "./a.txt", "./sub/../sub/b.txt"},
		{"../requirements.txt", "../a.txt", "b.txt"},
	}
	inc := [3][3]bool{}
	missing := [3]bool{}
	after := zzsym.Pick("after", "", " # x")
	bare := "" // one more requirement in the first file
	opt := zzsym.Pick("option", "-r ", "-r", "-r  ", "--requirement ", "--requirement=", "-r\t")
	if zzsym.Flag("absolute") {
		root := zzsym.Cwd()
		from[0][1], from[1][2], from[2][0] = root+"/a.txt", root+"/sub/b.txt", root+"/requirements.txt"
	}
	for i := range names {
		doc := ""
		for j := range names {
			if (i == j && zzsym.Tier() == 0 && i > 0) || !zzsym.Flag("inc") {
				continue
			}
			inc[i][j] = true
			doc += opt + from[i][j] + after + "\n"
		}
		doc += "p" + vItoa(i) + "==" + zzsym.Str("v", 1, "0123456789") + ".0\n"
		if i == 0 && after == "" && opt == "-r " {
			bare = zzsym.Pick("bare", "", "p1\n", "p2>0.5\n")
			doc = bare + doc
		}
		if i == 2 && zzsym.Flag("missing") {
			missing[i] = true
			doc += "-r none.txt\n"
		}
		zzsym.PutFile(names[i], doc)
	}
	in := [3]bool{true}
	for range names {
		for i := range names {
			for j := range names {
				if in[i] && inc[i][j] {
					in[j] = true
				}
			}
		}
	}
	out, ps := vList("requirements.txt")
	bad := in[2] && missing[2]
	if bad {
		zzsym.Assert(out.code == 127, "a file that cannot be included is an error")
		zzsym.Assert(vHas(out.stderr, "none.txt"), "the file that cannot be included is named")

		return
	}
	zzsym.Assert(out.code == 0, "a well-formed lockfile can be read")
	n := 0
	for i := range names {
		if !in[i] {
			continue
		}
		n++
		found := false
		for _, p := range ps {
			found = found || p.Name == "p"+vItoa(i) && len(p.Version) == 3 && p.Version[2] == '0'
		}
		zzsym.Assert(found, "the packages of every included file are found")
	}
	if bare != "" {
		n++
	}
	zzsym.Assert(len(ps) == n, "each package is found once, and only those of included files")
	vObs(out, ps)
}
