package main

import (
	"bytes"
	"encoding/json"
	"strconv"
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

type vOut struct {
	code           int
	stdout, stderr string
}

// vRun calls the command line entry point.
func vRun(args ...string) vOut {
	var so, se bytes.Buffer
	code := run(args, &so, &se)

	return vOut{code, so.String(), se.String()}
}

func vStrs(ss []string) string {
	q := make([]string, 0, len(ss))
	for _, s := range ss {
		q = append(q, `"`+s+`"`)
	}

	return "[" + strings.Join(q, ",") + "]"
}

type vEvent struct{ kind, ver string }

type vRange struct {
	typ    string
	events []vEvent
}

type vAff struct {
	eco, name string
	versions  []string
	ranges    []vRange
}

type vOSV struct {
	id        string
	aliases   []string
	withdrawn bool
	summary   string
	details   string
	affected  []vAff
}

// vJSON writes an advisory in OSV form.
func (o vOSV) vJSON() string {
	s := `{"id":"` + o.id + `","modified":"2024-01-01T00:00:00Z"`
	if o.aliases != nil {
		s += `,"aliases":` + vStrs(o.aliases)
	}
	if o.withdrawn {
		s += `,"withdrawn":"2024-02-02T00:00:00Z"`
	}
	if o.summary != "" {
		s += `,"summary":"` + o.summary + `"`
	}
	if o.details != "" {
		s += `,"details":"` + o.details + `"`
	}
	s += `,"affected":[`
	for i, a := range o.affected {
		if i > 0 {
			s += ","
		}
		if a.eco == "" && a.name == "" { // an entry for a repository only
			s += `{"database_specific":{}`
		} else {
			s += `{"package":{"ecosystem":"` + a.eco + `","name":"` + a.name + `"}`
		}
		if a.versions != nil {
			s += `,"versions":` + vStrs(a.versions)
		}
		if a.ranges != nil {
			s += `,"ranges":[`
			for j, r := range a.ranges {
				if j > 0 {
					s += ","
				}
				s += `{"type":"` + r.typ + `","events":[`
				for k, e := range r.events {
					if k > 0 {
						s += ","
					}
					s += `{"` + e.kind + `":"` + e.ver + `"}`
				}
				s += `]}`
			}
			s += `]`
		}
		s += `}`
	}

	return s + `]}`
}

func vItoa(i int) string { return strconv.Itoa(i) }

// vHas reports whether s contains sub, without branching.
func vHas(s, sub string) bool { return strings.Contains(s, sub) }

func vCount(s, sub string) int { return strings.Count(s, sub) }

var _ = zzsym.Tier

// vVer is a version whose place in the order is known to the oracle: 0.d, 1.d and 1.1d,
// their longer spellings, and the prereleases before them.
type vVer struct {
	s string
	n int
}

func vVersion(name string, wide bool) vVer {
	d := zzsym.Byte(name)
	zzsym.Assume(zzsym.And(d >= '0', d <= '9'))
	s, n := string([]byte{d}), int(d-'0')
	if !wide {
		return vVer{"1." + s, 1000 + 10*n}
	}
	switch zzsym.Choice(name+".form", 6) {
	case 1:
		return vVer{"1.1" + s, 1100 + 10*n}
	case 2:
		return vVer{"0." + s, 10 * n}
	case 3:
		return vVer{"1." + s + ".0", 1000 + 10*n}
	case 4:
		return vVer{"1." + s + ".0-beta", 1000 + 10*n - 5}
	case 5:
		return vVer{"1." + s + ".0-rc.1", 1000 + 10*n - 4}
	}

	return vVer{"1." + s, 1000 + 10*n}
}

type vID struct {
	ID      string `json:"id"`
	Summary string `json:"summary"`
}

type vPkg struct {
	Name            string `json:"name"`
	Version         string `json:"version"`
	Commit          string `json:"commit"`
	Ecosystem       string `json:"ecosystem"`
	CompareAs       string `json:"compareAs"`
	Vulnerabilities []vID  `json:"vulnerabilities"`
	Ignored         []vID  `json:"ignored"`
}

type vFile struct {
	FilePath string `json:"filePath"`
	ParsedAs string `json:"parsedAs"`
	Packages []vPkg `json:"packages"`
}

type vDoc struct {
	Results []vFile `json:"results"`
}

// vRunJSON runs with --json and decodes what was printed.
func vRunJSON(args ...string) (vOut, vDoc) {
	out := vRun(append([]string{"--json"}, args...)...)
	var d vDoc
	err := json.Unmarshal([]byte(out.stdout), &d)
	zzsym.Assert(err == nil, "with --json the standard output is one JSON document")

	return out, d
}

// vHasID reports whether the id is listed, without branching.
func vHasID(ids []vID, id string) bool {
	r := false
	for _, i := range ids {
		r = zzsym.Or(r, i.ID == id)
	}

	return r
}

func vIDs(ids []vID) string {
	var ss []string
	for _, i := range ids {
		ss = append(ss, i.ID)
	}

	return strings.Join(ss, ",")
}

// vShow renders results for comparison.
func vShow(d vDoc) string {
	s := ""
	for _, f := range d.Results {
		s += f.FilePath + "|" + f.ParsedAs + "\n"
		for _, p := range f.Packages {
			s += " " + p.Ecosystem + "/" + p.Name + "@" + p.Version + "#" + p.Commit + " [" + vIDs(p.Vulnerabilities) + "] (" + vIDs(p.Ignored) + ")\n"
		}
	}

	return s
}

// vSimple is an advisory affecting every version of one package.
func vSimple(id, eco, name string) vOSV {
	return vOSV{id: id, affected: []vAff{{eco: eco, name: name, ranges: []vRange{{"ECOSYSTEM", []vEvent{{"introduced", "0"}}}}}}}
}

// vPutDB writes advisories as files of a local database directory.
func vPutDB(dir string, osvs ...vOSV) {
	zzsym.PutDir(dir)
	for i, o := range osvs {
		zzsym.PutFile(dir+"/"+vItoa(i)+".json", o.vJSON())
	}
}

// vConfig writes a config file.
func vConfig(path string, ignores []string, dbs ...string) {
	s := ""
	if len(ignores) > 0 {
		s += "ignore:\n"
		for _, i := range ignores {
			s += "  - \"" + i + "\"\n"
		}
	}
	if len(dbs) > 0 {
		s += "extra-databases:\n"
		for _, d := range dbs {
			s += "  - url: file:/" + d + "\n    name: " + d + "\n"
		}
	}
	if s == "" {
		s = "ignore: []\n"
	}
	zzsym.PutFile(path, s)
}
