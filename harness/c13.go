package main

import (
	"encoding/json"
	"strings"
	"unicode"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC13Report", verifC13Report)
var _ = zzsym.Reg("verifC13Routing", verifC13Routing)
var _ = zzsym.Reg("verifC13List", verifC13List)
var _ = zzsym.Reg("verifC13Advisory", verifC13Advisory)
var _ = zzsym.Reg("verifC13Bare", verifC13Bare)
var _ = zzsym.Reg("verifC28Describe", verifC28Describe)
var _ = zzsym.Reg("verifC28Length", verifC28Length)

// vFound is what is expected for one package.
type vFound struct {
	name, ver     string
	live, ignored []string
}

// vText renders the text report of one lockfile.
func vText(path string, ps []vFound) string {
	s := path + ": found " + vItoa(len(ps)) + " "
	if len(ps) == 1 {
		s += "package\n"
	} else {
		s += "packages\n"
	}

	return s
}

func vTextResult(path string, ps []vFound) string {
	s, n, m := "", 0, 0
	for _, p := range ps {
		m += len(p.ignored)
		if len(p.live) == 0 {
			continue
		}
		s += "  " + p.name + "@" + p.ver + " is affected by the following vulnerabilities:\n"
		for _, id := range p.live {
			n++
			s += "    " + id + ": " + "about " + id + "\n"
		}
	}
	word, tail := "known", ""
	if m > 0 {
		word = "new"
		tail = " (" + vItoa(m) + " were ignored)"
		if m == 1 {
			tail = " (1 was ignored)"
		}
	}
	switch n {
	case 0:
		return "  no " + word + " vulnerabilities found" + tail + "\n"
	case 1:
		s += "\n  1 " + word + " vulnerability found in " + path
	default:
		s += "\n  " + vItoa(n) + " " + word + " vulnerabilities found in " + path
	}

	return s + tail + "\n"
}

// the report says what was found, as text and as JSON
func verifC13Report() {
	fix := vVersion("fix", false)
	one := vOSV{id: "V-1", summary: "about V-1", affected: []vAff{{eco: "crates.io", name: "foo", ranges: []vRange{{"SEMVER", []vEvent{{"introduced", "0"}, {"fixed", fix.s}}}}}}}
	two := vSimple("V-2", "crates.io", "foo")
	two.summary = "about V-2"
	three := vSimple("V-3", "crates.io", "bar")
	three.summary = "about V-3"
	vPutDB("db", one, two, three)
	vConfig("c.yml", nil, "db")
	args := []string{"--config=c.yml", "--use-dbs=false"}
	ign := map[string]bool{}
	for _, id := range []string{"V-1", "V-2", "V-3"} {
		if zzsym.Flag("ignore") {
			ign[id] = true
			args = append(args, "--ignore="+id)
		}
	}
	add := func(p *vFound, id string) {
		if ign[id] {
			p.ignored = append(p.ignored, id)
		} else {
			p.live = append(p.live, id)
		}
	}
	type file struct {
		path   string
		broken bool
		ps     []vFound
	}
	var files []file
	code := 0
	for i := range 1 + zzsym.Choice("files", 2+zzsym.Tier()) {
		f := file{path: "d" + vItoa(i) + "/Cargo.lock"}
		doc := ""
		switch zzsym.Choice("kind", 4) {
		case 0: // nothing in it
		case 1:
			doc = "[[package]\n"
			f.broken = true
		case 2:
			p := vFound{name: "bar", ver: "1.0"}
			add(&p, "V-3")
			f.ps = append(f.ps, p)
			doc = vCargoBar
		case 3:
			v := vVersion("v", false)
			p, q, z := vFound{name: "bar", ver: "1.0"}, vFound{name: "foo", ver: v.s}, vFound{name: "zoo", ver: "1.0"}
			add(&p, "V-3")
			if v.n < fix.n {
				add(&q, "V-1")
			}
			add(&q, "V-2")
			f.ps = append(f.ps, p, q, z)
			doc = "[[package]]\nname = \"zoo\"\nversion = \"1.0\"\n[[package]]\nname = \"foo\"\nversion = \"" + v.s + "\"\n" + vCargoBar
		}
		zzsym.PutFile(f.path, doc)
		args = append(args, f.path)
		files = append(files, f)
	}
	for _, f := range files {
		if f.broken {
			code = 127
		}
		for _, p := range f.ps {
			if len(p.live) > 0 && code == 0 {
				code = 1
			}
		}
	}

	out := vRun(args...)
	rest := out.stdout
	ids := 0
	for _, f := range files {
		if f.broken {
			zzsym.Assert(vHas(out.stderr, f.path), "a lockfile that cannot be read is named on the standard error")
			zzsym.Assert(!vHas(out.stdout, f.path), "and not reported on")

			continue
		}
		i := strings.Index(rest, vText(f.path, f.ps))
		zzsym.Assert(i >= 0, "every lockfile is listed with the number of its packages, in the order given")
		if i < 0 {
			return
		}
		rest = rest[i:]
		i = strings.Index(rest, vTextResult(f.path, f.ps))
		zzsym.Assert(i >= 0, "the text lists every unignored vulnerability under its package and counts them")
		if i < 0 {
			return
		}
		rest = rest[i:]
		for _, p := range f.ps {
			ids += len(p.live)
		}
	}
	zzsym.Assert(vCount(out.stdout, "\n    V-") == ids, "the text lists nothing else")
	zzsym.Assert(out.code == code, "the exit code agrees with the report")
	if code != 127 {
		zzsym.Assert(out.stderr == "", "without errors the standard error is empty")
	}

	jout, d := vRunJSON(args...)
	zzsym.Assert(jout.code == out.code, "the output format does not change the exit code")
	zzsym.Assert(!vHas(jout.stdout, "\"vulnerabilities\":null") && !vHas(jout.stdout, "\"ignored\":null") && !vHas(jout.stdout, "\"packages\":null") && !vHas(jout.stdout, "\"results\":null"), "empty lists are lists")
	k := 0
	for _, f := range files {
		if f.broken {
			zzsym.Assert(vHas(jout.stderr, f.path), "a lockfile that cannot be read is named on the standard error")

			continue
		}
		if k >= len(d.Results) {
			zzsym.Assert(false, "every lockfile has its result")

			return
		}
		r := d.Results[k]
		k++
		zzsym.Assert(r.FilePath == f.path && r.ParsedAs == "Cargo.lock", "results come in the order of the lockfiles")
		if len(r.Packages) != len(f.ps) {
			zzsym.Assert(false, "every package is in the result")

			return
		}
		for i, p := range f.ps {
			q := r.Packages[i]
			zzsym.Assert(q.Name == p.name && q.Version == p.ver && vIDs(q.Vulnerabilities) == strings.Join(p.live, ",") && vIDs(q.Ignored) == strings.Join(p.ignored, ","), "each package comes with its vulnerabilities, ignored ones apart")
		}
	}
	zzsym.Assert(k == len(d.Results), "there are no other results")
	zzsym.Observe(out.stdout + vShow(d))
}

// what is printed where
func verifC13Routing() {
	zzsym.PutFile("p/Cargo.lock", vCargoFoo)
	zzsym.PutFile("q/README.md", "")
	vPutDB("db", vSimple("V-1", "crates.io", "foo"))
	vConfig("c.yml", nil, "db")
	vConfig("bad.yml", nil, "none")
	type use struct {
		args   []string
		says   string // on the standard output, or with --json on the standard error
		errors string
		n      int
	}
	uses := []use{
		{[]string{"--version"}, "osv-detector ", "", 0},
		{[]string{"--list-ecosystems"}, "crates.io", "", 0},
		{[]string{}, "", "You must provide at least one path", 0},
		{[]string{"q"}, "", "You must provide at least one path", 0},
		{[]string{"none"}, "", "Error reading none", 0},
		{[]string{"--parse-as=nope", "p"}, "", "nope", 0},
		{[]string{"--config=none.yml", "p"}, "", "none.yml", 0},
		{[]string{"--list-packages", "p"}, "p/Cargo.lock: found 1 package", "", 1},
		{[]string{"--list-packages", "p", "none"}, "p/Cargo.lock: found 1 package", "Error reading none", 1},
		{[]string{"--config=c.yml", "--use-dbs=false", "p"}, "Using db db", "", 1},
		{[]string{"--config=bad.yml", "--use-dbs=false", "p"}, "p/Cargo.lock: found 1 package", "failed", 1},
		{[]string{"--config=c.yml", "--use-dbs=false", "p", "none", "p/Cargo.lock"}, "c.yml", "Error reading none", 2},
		{[]string{"--config=c.yml", "--use-dbs=false", "--parse-as=csv-row", "npm,,a"}, "", "row 1", 0},
		{[]string{"--config=c.yml", "--use-dbs=false", "--parse-as=csv-row", "npm,,a,1.0"}, "-: found 1 package", "", 1},
	}
	u := uses[zzsym.Choice("use", len(uses))]
	out := vRun(u.args...)
	zzsym.Assert(vHas(out.stdout, u.says), "what a run has to say is on the standard output")
	zzsym.Assert(vHas(out.stderr, u.errors), "errors are on the standard error")
	zzsym.Assert(u.errors == "" || !vHas(out.stdout, u.errors), "and only there")
	zzsym.Assert((out.stderr == "") == (u.errors == ""), "the standard error is empty exactly when there is no error")

	jout, d := vRunJSON(u.args...)
	zzsym.Assert(jout.code == out.code, "the output format does not change the exit code")
	zzsym.Assert(len(d.Results) == u.n, "the document holds the results")
	zzsym.Assert(vHas(jout.stderr, u.says), "with --json text goes to the standard error")
	zzsym.Assert(vHas(jout.stderr, u.errors), "errors are on the standard error")
	zzsym.Assert(strings.HasPrefix(jout.stdout, "{\"results\":[") && strings.HasSuffix(strings.TrimSpace(jout.stdout), "}"), "with --json the standard output is one JSON document")
	zzsym.Observe(vItoa(out.code) + out.stdout + out.stderr + jout.stdout)
}

// what --list-packages prints is what is found
func verifC13List() {
	eco := zzsym.Pick("eco", "", "npm", "Alpine:v3")
	name := zzsym.Str("name", 1, "a%@") + zzsym.Pick("tail", "", "%d", "b/c")
	ver := zzsym.StrUpTo("ver", 0, 2, "01.%")
	if eco == "" {
		zzsym.Assume(ver != "")
	}
	out := vRun("--list-packages", "--parse-as=csv-row", eco+",,"+name+","+ver)
	line := "  " + eco + ": " + name
	if eco == "" {
		line = "  <unknown>: " + name + " (" + ver + ")"
	} else if ver != "" {
		line += "@" + ver
	}
	zzsym.Assert(out.code == 0, "listing succeeds")
	zzsym.Assert(vHas(out.stdout+"\n", "\n"+line+"\n"), "packages are listed with their ecosystem, name, version and commit")
	jout, d := vRunJSON("--list-packages", "--parse-as=csv-row", eco+",,"+name+","+ver)
	zzsym.Assert(jout.code == 0, "listing succeeds")
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 1 {
		zzsym.Assert(false, "the package is listed")

		return
	}
	p := d.Results[0].Packages[0]
	if eco == "" {
		zzsym.Assert(p.Name == name && p.Commit == ver && p.Version == "", "packages are listed with their commit")
	} else {
		zzsym.Assert(p.Name == name && p.Version == ver && p.Ecosystem == eco, "packages are listed with their ecosystem, name and version")
	}
	zzsym.Observe(out.stdout)
}

// vLine is the line an advisory gets in the text report.
func vLine(o vOSV) (string, bool) {
	vPutDB("db", o)
	vConfig("c.yml", nil, "db")
	out := vRun("--config=c.yml", "--use-dbs=false", "--parse-as=csv-row", "npm,,foo,1.0")
	zzsym.Assert(out.code == 1, "the package is affected")
	_, l, ok := strings.Cut(out.stdout, "\n    "+o.id+": ")
	zzsym.Assert(ok, "the advisory is listed")
	l, _, _ = strings.Cut(l, "\n\n  1 known")
	zzsym.Observe(l)

	return l, ok
}

// how an advisory is described
func verifC28Describe() {
	o := vSimple(zzsym.Pick("pre", "GHSA", "GHS", "CVE", "XGHSA", "ghsa")+"-"+zzsym.Str("id", 1, "ab%"), "npm", "foo")
	if zzsym.Flag("summary") {
		o.summary = zzsym.StrUpTo("sum", 1, 3, "a %d.")
	}
	if zzsym.Flag("details") {
		o.details = zzsym.StrUpTo("det", 1, 3, "b %s.")
	}
	l, ok := vLine(o)
	if !ok {
		return
	}
	want := o.summary
	if want == "" {
		want = o.details
	}
	if want == "" {
		want = "(no details available)"
	}
	if strings.HasPrefix(o.id, "GHSA") {
		want += " (https://github.com/advisories/" + o.id + ")"
	}
	zzsym.Assert(l == want, "an advisory is described by its summary, else its details, with a link where there is one")
}

// long details are cut at a word, short ones never
func verifC28Length() {
	unit := []string{"abcdefghi ", "abcdefghij", "ünïcödé x ", "日本語日本語日本語日", "abcdefghi\t", "日本語日本語日本語\u3000"}[zzsym.Choice("unit", 6)]
	full := strings.Repeat(unit, 7) + strings.Repeat("x", zzsym.Choice("more", 13))
	if zzsym.Flag("edge") {
		full += zzsym.Str("edge", 3+zzsym.Tier(), " a.")
	}
	if zzsym.Flag("long") {
		full += strings.Repeat("z", 40)
	}
	o := vSimple("V-1", "npm", "foo")
	o.details = strings.ReplaceAll(full, "\t", "\\t")
	l, ok := vLine(o)
	if !ok {
		return
	}
	if len([]rune(full)) < 80 {
		zzsym.Assert(l == full, "short details are given in full")

		return
	}
	cut, dots := strings.CutSuffix(l, "...")
	zzsym.Assert(dots, "details that are cut end in an ellipsis")
	zzsym.Assert(strings.HasPrefix(full, cut), "and are the start of the details")
	n := len([]rune(cut))
	zzsym.Assert(n <= 80, "details are at most 80 characters long")
	zzsym.Assert(string([]rune(cut)) == cut, "characters are kept whole")
	first := string([]rune(full)[:80])
	if i := strings.LastIndexFunc(first, unicode.IsSpace); i >= 0 && strings.IndexFunc(full[len(first):], unicode.IsSpace) != 0 {
		zzsym.Assert(cut == first[:i], "words are kept whole where possible")
	} else if i < 0 {
		zzsym.Assert(n == 80, "a text without spaces is cut at the limit")
	}
}

var _ = json.Marshal

// the JSON report carries the advisories themselves
func verifC13Advisory() {
	o := vOSV{id: "V-" + zzsym.Str("id", 1, "ab"), affected: []vAff{}}
	for range zzsym.Choice("aliases", 3) {
		o.aliases = append(o.aliases, "A-"+zzsym.Str("alias", 1, "abc"))
	}
	if zzsym.Flag("summary") {
		o.summary = zzsym.StrUpTo("summary", 1, 2, "a <&%'")
	}
	if zzsym.Flag("details") {
		o.details = strings.Repeat("word ", 20*zzsym.Choice("long", 2)) + zzsym.StrUpTo("details", 1, 2, "b >&%'")
	}
	o.affected = append(o.affected, vAff{eco: "npm", name: "foo", versions: []string{"1.0"}})
	switch zzsym.Choice("more", 4) {
	case 1:
		o.affected = append([]vAff{{eco: "PyPI", name: "Foo_.bar", versions: []string{"2.0", "1.0"}}}, o.affected...)
	case 2:
		o.affected[0].versions = nil
		o.affected[0].ranges = []vRange{{"ECOSYSTEM", []vEvent{{"introduced", "0"}, {"fixed", "0.5"}, {"introduced", "0.9"}, {"last_affected", "1.0"}}}, {"GIT", []vEvent{{"introduced", "0"}}}}
	case 3:
		o.affected = append(o.affected, vAff{eco: "npm:x", name: "other", ranges: []vRange{{"SEMVER", []vEvent{{"introduced", "1." + zzsym.Str("v", 1, "0123456789")}}}}})
	}
	text := strings.Replace(o.vJSON(), "\"affected\"", "\"published\":\"2020-02-02T02:02:02.5Z\",\"affected\"", 1)
	zzsym.PutFile("db/x.json", text)
	vConfig("c.yml", nil, "db")
	args := []string{"--json", "--config=c.yml", "--use-dbs=false", "--parse-as=csv-row"}
	ignored := zzsym.Flag("ignored")
	if ignored {
		args = append([]string{"--ignore=" + o.id}, args...)
	}
	out := vRun(append(args, "npm,,foo,1.0")...)
	type event struct {
		Introduced   string `json:"introduced"`
		Fixed        string `json:"fixed"`
		LastAffected string `json:"last_affected"`
	}
	type adv struct {
		ID        string   `json:"id"`
		Aliases   []string `json:"aliases"`
		Summary   string   `json:"summary"`
		Details   string   `json:"details"`
		Published string   `json:"published"`
		Modified  string   `json:"modified"`
		Affected  []struct {
			Package struct {
				Name      string `json:"name"`
				Ecosystem string `json:"ecosystem"`
			} `json:"package"`
			Versions []string `json:"versions"`
			Ranges   []struct {
				Type   string  `json:"type"`
				Events []event `json:"events"`
			} `json:"ranges"`
		} `json:"affected"`
	}
	var doc struct {
		Results []struct {
			Packages []struct {
				Vulnerabilities []adv `json:"vulnerabilities"`
				Ignored         []adv `json:"ignored"`
			} `json:"packages"`
		} `json:"results"`
	}
	err := json.Unmarshal([]byte(out.stdout), &doc)
	if err != nil || len(doc.Results) != 1 || len(doc.Results[0].Packages) != 1 {
		zzsym.Assert(false, "the package is in the document")

		return
	}
	list := doc.Results[0].Packages[0].Vulnerabilities
	if ignored {
		list = doc.Results[0].Packages[0].Ignored
	}
	if len(list) != 1 {
		zzsym.Assert(false, "the advisory is in the document")

		return
	}
	a := list[0]
	zzsym.Assert(a.ID == o.id && strings.Join(a.Aliases, ",") == strings.Join(o.aliases, ","), "an advisory is given with its id and aliases")
	zzsym.Assert(a.Summary == o.summary && a.Details == o.details, "with its summary and details in full")
	zzsym.Assert(a.Published == "2020-02-02T02:02:02.5Z" && a.Modified == "2024-01-01T00:00:00Z", "with its dates")
	if len(a.Affected) != len(o.affected) {
		zzsym.Assert(false, "with all it affects")

		return
	}
	for i, w := range o.affected {
		g := a.Affected[i]
		zzsym.Assert(g.Package.Name == w.name && g.Package.Ecosystem == w.eco && strings.Join(g.Versions, ",") == strings.Join(w.versions, ","), "with all it affects")
		ws, gs := "", ""
		for _, r := range w.ranges {
			ws += r.typ + ":"
			for _, e := range r.events {
				ws += e.kind + " " + e.ver + ";"
			}
		}
		for _, r := range g.Ranges {
			gs += r.Type + ":"
			for _, e := range r.Events {
				switch {
				case e.Introduced != "":
					gs += "introduced " + e.Introduced + ";"
				case e.Fixed != "":
					gs += "fixed " + e.Fixed + ";"
				default:
					gs += "last_affected " + e.LastAffected + ";"
				}
			}
		}
		zzsym.Assert(gs == ws, "with all it affects")
	}
	zzsym.Assert(!vHas(out.stdout, "\"versions\":null"), "empty lists are lists")
	zzsym.Observe(a.ID)
}

// packages without a version are in the text as in the JSON
func verifC13Bare() {
	vPutDB("db", vSimple("V-1", "npm", "foo"), vSimple("V-2", "npm", "bar"))
	vConfig("c.yml", nil, "db")
	args := []string{"--config=c.yml", "--use-dbs=false", "--parse-as=csv-row"}
	n := 1 + zzsym.Choice("rows", 3)
	for range n {
		args = append(args, "npm,,"+zzsym.Pick("name", "foo", "bar", "baz")+","+zzsym.StrUpTo("v", 0, 1, "0123456789"))
	}
	out, d := vRunJSON(args...)
	text := vRun(args...)
	ids := vShowIDs(d)
	count := 0
	if ids != "" {
		count = strings.Count(ids, ",") + 1
	}
	zzsym.Assert(len(d.Results) == 1 && len(d.Results[0].Packages) == n, "all packages are reported")
	zzsym.Assert(vCount(text.stdout, "    V-") == count, "the text lists every vulnerability the JSON has")
	for _, id := range []string{"V-1", "V-2"} {
		zzsym.Assert(vCount(text.stdout, "    "+id+": ") == strings.Count(ids, id), "the text lists every vulnerability the JSON has")
	}
	if len(d.Results) == 1 {
		for _, p := range d.Results[0].Packages {
			zzsym.Assert(len(p.Vulnerabilities) == 0 || vHas(text.stdout, "  "+p.Name+"@"+p.Version+" is affected by"), "every affected package is named")
		}
	}
	zzsym.Assert(out.code == text.code, "both give the same exit code")
	zzsym.Observe(text.stdout)
}
