package main

import (
	"encoding/json"
	"strings"
	"sync"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC08Align", verifC08Align)
var _ = zzsym.Reg("verifC08Order", verifC08Order)
var _ = zzsym.Reg("verifC08Race", verifC08Race)
var _ = zzsym.Reg("verifC08Size", verifC08Size)
var _ = zzsym.Reg("verifC08Many", verifC08Many)
var _ = zzsym.Reg("verifC09Batch", verifC09Batch)
var _ = zzsym.Reg("verifC09Fetch", verifC09Fetch)
var _ = zzsym.Reg("verifC10Query", verifC10Query)
var _ = zzsym.Reg("verifC10Extra", verifC10Extra)

const vAPI = "https://api.osv.dev/v1"

type vQuery struct {
	Commit  string `json:"commit"`
	Version string `json:"version"`
	Package struct {
		Name      string `json:"name"`
		Ecosystem string `json:"ecosystem"`
	} `json:"package"`
}

type vBatch struct {
	Queries []vQuery `json:"queries"`
}

// vServer answers like the osv.dev API.
type vServer struct {
	mu      sync.Mutex
	base    string
	query   string
	vulns   func(q vQuery) []string // ids for a query
	delay   func(r zzsym.Req, b vBatch) int
	tweak   func(r zzsym.Req, p zzsym.Resp) zzsym.Resp
	details func(id string) string
	batches []vBatch
	fetched []string
	odd     []string
}

func (s *vServer) start() {
	zzsym.Network(s.answer)
}

func (s *vServer) answer(r zzsym.Req) zzsym.Resp {
	var p zzsym.Resp
	base := s.base
	if base == "" {
		base = vAPI
	}
	var b vBatch
	switch {
	case r.Method == "POST" && r.URL == base+"/querybatch"+s.query:
		if err := json.Unmarshal([]byte(r.Body), &b); err != nil {
			return zzsym.Resp{Status: 400}
		}
		s.mu.Lock()
		s.batches = append(s.batches, b)
		s.mu.Unlock()
		out := "{\"results\":["
		for i, q := range b.Queries {
			if i > 0 {
				out += ","
			}
			ids := s.vulns(q)
			if len(ids) == 0 {
				out += "{}"

				continue
			}
			out += "{\"vulns\":["
			for j, id := range ids {
				if j > 0 {
					out += ","
				}
				out += "{\"id\":\"" + id + "\",\"modified\":\"2024-01-01T00:00:00Z\"}"
			}
			out += "]}"
		}
		p = zzsym.Resp{Status: 200, Body: out + "]}"}
	case r.Method == "GET" && strings.HasPrefix(r.URL, base+"/vulns/") && strings.HasSuffix(r.URL, s.query):
		id := strings.TrimSuffix(strings.TrimPrefix(r.URL, base+"/vulns/"), s.query)
		s.mu.Lock()
		s.fetched = append(s.fetched, id)
		s.mu.Unlock()
		p = zzsym.Resp{Status: 200, Body: "{\"id\":\"" + id + "\",\"summary\":\"about " + id + "\"}"}
		if s.details != nil {
			p.Body = s.details(id)
		}
	default:
		s.mu.Lock()
		s.odd = append(s.odd, r.Method+" "+r.URL)
		s.mu.Unlock()
		p = zzsym.Resp{Status: 404, Body: "no"}
	}
	if s.delay != nil {
		zzsym.Delay(s.delay(r, b))
	}
	if s.tweak != nil {
		p = s.tweak(r, p)
	}

	return p
}

type vDetail struct {
	ID      string `json:"id"`
	Summary string `json:"summary"`
}

type vDetailDoc struct {
	Results []struct {
		Packages []struct {
			Name            string    `json:"name"`
			Version         string    `json:"version"`
			Vulnerabilities []vDetail `json:"vulnerabilities"`
			Ignored         []vDetail `json:"ignored"`
		} `json:"packages"`
	} `json:"results"`
}

func vAPIRun(args ...string) (vOut, vDetailDoc) {
	out := vRun(append([]string{"--json", "--use-api", "--use-dbs=false", "--no-config"}, args...)...)
	var d vDetailDoc
	err := json.Unmarshal([]byte(out.stdout), &d)
	zzsym.Assert(err == nil, "with --json the standard output is one JSON document")

	return out, d
}

// each package gets its own answers, with the details of each advisory, for every batch size
func verifC08Align() {
	n := 1 + zzsym.Choice("packages", 4+zzsym.Tier())
	size := 1 + zzsym.Choice("size", 4+zzsym.Tier())
	ids := make([][]string, n)
	args := []string{"--batch-size=" + vItoa(size), "--parse-as=csv-row"}
	for i := range n {
		args = append(args, "npm,,p"+vItoa(i)+",1."+vItoa(i))
		k := zzsym.Choice("vulns", 3)
		if n > 3 && k > 1 {
			k = 1
		}
		for j := range k {
			id := "V-" + zzsym.Str("id", 1, "12a")
			if j > 0 {
				zzsym.Assume(id != ids[i][0])
			}
			ids[i] = append(ids[i], id)
		}
	}
	gone := ""
	if n > 1 && n < 4 && zzsym.Flag("gone") { // an advisory whose details are not to be had
		gone = "V-" + zzsym.Pick("which", "1", "2", "a")
	}
	s := &vServer{vulns: func(q vQuery) []string {
		for i := range n {
			if q.Package.Name == "p"+vItoa(i) {
				return ids[i]
			}
		}

		return nil
	}, tweak: func(r zzsym.Req, p zzsym.Resp) zzsym.Resp {
		if gone != "" && strings.HasSuffix(r.URL, "/vulns/"+gone) {
			return zzsym.Resp{Status: 404}
		}

		return p
	}}
	s.start()
	out, d := vAPIRun(args...)
	if len(d.Results) != 1 || len(d.Results[0].Packages) != n {
		zzsym.Assert(false, "every package given is reported")

		return
	}
	any := false
	for i, p := range d.Results[0].Packages {
		zzsym.Assert(p.Name == "p"+vItoa(i), "packages are reported in order")
		zzsym.Assert(len(p.Vulnerabilities) == len(ids[i]), "each package gets the advisories answered for it")
		for j, v := range p.Vulnerabilities {
			any = true
			if j < len(ids[i]) {
				zzsym.Assert(v.ID == ids[i][j], "each package gets the advisories answered for it, in order")
				if ids[i][j] == gone {
					zzsym.Assert(v.Summary == "", "an advisory never comes with the details of another")
				} else {
					zzsym.Assert(v.Summary == "about "+ids[i][j], "each advisory comes with its own details")
				}
			}
		}
	}
	queried := map[string]int{}
	for _, b := range s.batches {
		zzsym.Assert(len(b.Queries) <= size && len(b.Queries) > 0, "no request asks for more packages than the batch size")
		for _, q := range b.Queries {
			queried[q.Package.Name]++
		}
	}
	for i := range n {
		zzsym.Assert(queried["p"+vItoa(i)] == 1, "every package is asked about once")
	}
	zzsym.Assert(len(s.odd) == 0, "only the query and advisory endpoints are used")
	want := 0
	if any {
		want = 1
	}
	zzsym.Assert(out.code == want, "1 when there are vulnerabilities")
	zzsym.Observe(vItoa(out.code) + out.stdout)
}

// any batch size that is not one is an error
func verifC08Size() {
	text := zzsym.Pick("sign", "", "-") + zzsym.Str("size", 1, "012")
	n := zzsym.Choice("packages", 3)
	zzsym.PutFile("rows", strings.Join([]string{"", "npm,,p0,1.0\n", "npm,,p0,1.0\nnpm,,p1,1.0\n"}[n:n+1], ""))
	s := &vServer{vulns: func(q vQuery) []string { return nil }}
	s.start()
	out, _ := vAPIRun("--batch-size="+text, "--parse-as=csv-file", "rows")
	if text[0] == '-' || text == "0" {
		zzsym.Assert(out.code == 127, "a batch size below one is an error")
		zzsym.Assert(len(s.batches) == 0, "and nothing is asked")
	} else {
		zzsym.Assert(out.code == 0, "0 when there are no vulnerabilities")
		asked := 0
		for _, b := range s.batches {
			asked += len(b.Queries)
			zzsym.Assert(len(b.Queries) <= int(text[0]-'0'), "no request asks for more packages than the batch size")
		}
		zzsym.Assert(asked == n, "every package is asked about once")
	}
	zzsym.Observe(vItoa(out.code))
}

// more packages, requests and advisories than are handled at a time
func verifC08Many() {
	n := 120
	args := []string{"--batch-size=" + zzsym.Pick("size", "1", "7"), "--parse-as=csv-file", "rows"}
	rows := ""
	for i := range n {
		rows += "npm,,p" + vItoa(i) + ",1.0\n"
	}
	zzsym.PutFile("rows", rows)
	odd := "V-" + zzsym.Str("id", 1, "xy")
	ids := func(name string) []string {
		switch name {
		case "p0", "p60", "p119":
			return []string{"V-" + name, odd}
		case "p7":
			return nil
		}

		return []string{"V-" + name, "W-" + name}
	}
	s := &vServer{vulns: func(q vQuery) []string { return ids(q.Package.Name) }}
	s.start()
	_, d := vAPIRun(args...)
	if len(d.Results) != 1 || len(d.Results[0].Packages) != n {
		zzsym.Assert(false, "every package given is reported")

		return
	}
	for _, p := range d.Results[0].Packages {
		want := ids(p.Name)
		zzsym.Assert(len(p.Vulnerabilities) == len(want), "each package gets the advisories answered for it")
		for j, v := range p.Vulnerabilities {
			if j < len(want) {
				zzsym.Assert(v.ID == want[j] && v.Summary == "about "+want[j], "each package gets the advisories answered for it, with their details")
			}
		}
	}
	asked := 0
	for _, b := range s.batches {
		asked += len(b.Queries)
	}
	zzsym.Assert(asked == n, "every package is asked about once")
}

// answers may arrive in any order
func verifC08Order() {
	n := 3
	rank := make([]int, n)
	frank := make([]int, n)
	for i := range n {
		rank[i] = zzsym.Choice("rank", 3)
		frank[i] = zzsym.Choice("fetchrank", 3)
	}
	size := 1 + zzsym.Choice("size", 2)
	shared := zzsym.Flag("shared")
	args := []string{"--batch-size=" + vItoa(size), "--parse-as=csv-row"}
	ids := make([][]string, n)
	for i := range n {
		args = append(args, "npm,,p"+vItoa(i)+",1.0")
		ids[i] = []string{"V-" + vItoa(n-i)}
	}
	if shared {
		ids[2] = append(ids[2], "V-3")
	}
	idx := func(name string) int { return int(name[len(name)-1] - '0') }
	s := &vServer{
		vulns: func(q vQuery) []string { return ids[idx(q.Package.Name)] },
		delay: func(r zzsym.Req, b vBatch) int {
			if len(b.Queries) > 0 {
				return rank[idx(b.Queries[0].Package.Name)]
			}

			return frank[idx(r.URL)-1]
		},
	}
	s.start()
	_, d := vAPIRun(args...)
	if len(d.Results) != 1 || len(d.Results[0].Packages) != n {
		zzsym.Assert(false, "every package given is reported")

		return
	}
	for i, p := range d.Results[0].Packages {
		got := ""
		for _, v := range p.Vulnerabilities {
			zzsym.Assert(v.Summary == "about "+v.ID, "each advisory comes with its own details")
			got += v.ID + ","
		}
		zzsym.Assert(p.Name == "p"+vItoa(i) && got == strings.Join(ids[i], ",")+",", "answers are attached to the package they are for, in whatever order they arrive")
	}
	zzsym.Observe(vItoa(len(s.fetched)))
}

// every interleaving of the concurrent requests, with race detection
func verifC08Race() {
	n := 2
	args := []string{"--batch-size=1", "--parse-as=csv-row", "npm,,p0,1.0", "npm,,p1,1.0"}
	ids := [][]string{{"V-2"}, {"V-1"}}
	idx := func(name string) int { return int(name[len(name)-1] - '0') }
	s := &vServer{vulns: func(q vQuery) []string { return ids[idx(q.Package.Name)] }}
	s.start()
	zzsym.Schedules(true)
	zzsym.Races(true)
	_, d := vAPIRun(args...)
	zzsym.Races(false)
	zzsym.Schedules(false)
	if len(d.Results) != 1 || len(d.Results[0].Packages) != n {
		zzsym.Assert(false, "every package given is reported")

		return
	}
	for i, p := range d.Results[0].Packages {
		zzsym.Assert(len(p.Vulnerabilities) == 1 && p.Vulnerabilities[0].ID == ids[i][0] && p.Vulnerabilities[0].Summary == "about "+ids[i][0], "answers are attached to the package they are for, in every schedule")
	}
}

// a failing batch is never mistaken for "no vulnerabilities"
func verifC09Batch() {
	n := 1 + zzsym.Choice("packages", 3)
	size := 1 + zzsym.Choice("size", 2)
	args := []string{"--batch-size=" + vItoa(size), "--parse-as=csv-row"}
	for i := range n {
		args = append(args, "npm,,p"+vItoa(i)+",1.0")
	}
	bad := make([]int, n)
	failing := false
	main := zzsym.Choice("main", (n+size-1)/size) * size
	for i := 0; i < n; i += size {
		if i == main {
			bad[i] = zzsym.Choice("bad", 14)
		} else {
			bad[i] = zzsym.Choice("other", 2)
		}
		failing = failing || bad[i] != 0
	}
	status := 300 + int(zzsym.Byte("status"))
	zzsym.Assume(status < 600)
	zzsym.Assume(zzsym.Or(status > 308, status == 304)) // redirects are followed by the http client
	idx := func(name string) int { return int(name[len(name)-1] - '0') }
	tweak := func(r zzsym.Req, p zzsym.Resp) zzsym.Resp {
		if r.Method != "POST" {
			return p
		}
		var b vBatch
		_ = json.Unmarshal([]byte(r.Body), &b)
		switch bad[idx(b.Queries[0].Package.Name)] {
		case 1:
			return zzsym.Resp{Err: "connection refused"}
		case 2:
			p.Status = status
		case 3:
			p.Body = "<html></html>"
		case 4:
			p.BadRead = true
		case 5: // one answer too few
			p.Body = "{\"results\":[" + strings.TrimSuffix(strings.Repeat("{},", len(b.Queries)-1), ",") + "]}"
		case 6: // one too many
			p.Body = "{\"results\":[" + strings.TrimSuffix(strings.Repeat("{},", len(b.Queries)+1), ",") + "]}"
		case 7:
			p.Body = "{}"
		case 8:
			p.Body = ""
		case 9:
			p.Status = 204
			p.Body = ""
		case 10: // more than an answer
			p.Body += zzsym.Pick("junk", "}", "oops", "{\"results\":[]}")
		case 12: // an empty answer too many
			p.Body = strings.Replace(p.Body, "[", "[{},", 1)
		case 13:
			p.Body = strings.TrimSuffix(p.Body, "]}") + ",null]}"
		case 11: // an answer cut short
			p.Body = p.Body[:len(p.Body)-1]
		}

		return p
	}
	s := &vServer{vulns: func(q vQuery) []string { return []string{"V-" + q.Package.Name} }, tweak: tweak}
	s.start()
	out, d := vAPIRun(args...)
	if len(d.Results) != 1 || len(d.Results[0].Packages) != n {
		zzsym.Assert(false, "every package given is reported")

		return
	}
	if failing {
		zzsym.Assert(out.code != 0, "a failed query is never a success")
		zzsym.Assert(vHas(out.stderr, "api error"), "a failed query is reported")
	} else {
		zzsym.Assert(out.code == 1, "1 when there are vulnerabilities")
		zzsym.Assert(!vHas(out.stderr, "rror"), "no error when everything worked")
	}
	for _, p := range d.Results[0].Packages {
		if !failing {
			zzsym.Assert(len(p.Vulnerabilities) == 1, "each package gets the advisories answered for it")
		}
		for _, v := range p.Vulnerabilities {
			zzsym.Assert(v.ID == "V-"+p.Name, "an answer is never attached to another package")
		}
	}
	zzsym.Observe(vItoa(out.code) + out.stdout)
}

// an advisory whose details cannot be had is still reported
func verifC09Fetch() {
	n := 1 + zzsym.Choice("packages", 2+zzsym.Tier())
	together := zzsym.Flag("together") // all for one package
	args := []string{"--parse-as=csv-row"}
	bad := make([]int, n)
	for i := range n {
		if i == 0 || !together {
			args = append(args, "npm,,p"+vItoa(i)+",1.0")
		}
		bad[i] = zzsym.Choice("bad", 11)
	}
	ign := ""
	if zzsym.Flag("ignore") {
		ign = "V-" + zzsym.Str("id", 1, "012")
		args = append([]string{"--ignore=" + ign}, args...)
	}
	status := 400 + int(zzsym.Byte("status"))
	if n > 1 && zzsym.Tier() == 0 {
		zzsym.Assume(status%13 == 0)
	}
	zzsym.Assume(status < 600)
	idx := func(name string) int { return int(name[len(name)-1] - '0') }
	tweak := func(r zzsym.Req, p zzsym.Resp) zzsym.Resp {
		if r.Method == "POST" {
			return p
		}
		switch bad[idx(r.URL)] {
		case 1:
			return zzsym.Resp{Err: "connection refused"}
		case 2:
			p.Status = status
		case 3:
			p.Body = "<html></html>"
		case 4:
			p.BadRead = true
		case 5:
			p.Body = "{}"
		case 6:
			p.Body = ""
		case 7:
			p.Body = "{\"summary\":5}"
		case 9: // the api answers for it all the same
			p.Body = strings.Replace(p.Body, "{", "{\"withdrawn\":\"2020-01-01T00:00:00Z\",", 1)
		case 10:
			p.Body += "}"
		case 8: // known under another id by now
			p.Body = "{\"id\":\"W-9\",\"summary\":\"about W-9\"}"
		}

		return p
	}
	s := &vServer{vulns: func(q vQuery) []string {
		if !together {
			return []string{"V-" + q.Package.Name[1:]}
		}
		var ids []string
		for i := range n {
			ids = append(ids, "V-"+vItoa(i))
		}

		return ids
	}, tweak: tweak}
	s.start()
	out, d := vAPIRun(args...)
	if together && len(d.Results) == 1 && len(d.Results[0].Packages) == 1 {
		p := d.Results[0].Packages[0]
		at := 0
		for i := range n {
			id := "V-" + vItoa(i)
			found, renamed := false, false
			for _, v := range append(append([]vDetail{}, p.Vulnerabilities...), p.Ignored...) {
				found = found || v.ID == id
				renamed = renamed || bad[i] == 8 && v.ID == "W-9"
				zzsym.Assert(v.ID != id || bad[i] != 0 || v.Summary == "about "+id, "details that can be had are shown")
			}
			zzsym.Assert(found || renamed, "an advisory is reported even when its details cannot be had")
			if found && id != ign {
				at++
			}
		}
		zzsym.Assert(at == 0 || out.code == 1, "1 when there are vulnerabilities")
		zzsym.Observe(vItoa(out.code) + out.stdout)

		return
	}
	if len(d.Results) != 1 || len(d.Results[0].Packages) != n {
		zzsym.Assert(false, "every package given is reported")

		return
	}
	left := false
	for i, p := range d.Results[0].Packages {
		id := "V-" + vItoa(i)
		all := append(append([]vDetail{}, p.Vulnerabilities...), p.Ignored...)
		if bad[i] == 8 && len(all) == 1 && all[0].ID == "W-9" {
			id = "W-9"
		}
		zzsym.Assert(len(all) == 1 && all[0].ID == id, "an advisory is reported even when its details cannot be had")
		if len(all) != 1 {
			continue
		}
		zzsym.Assert((len(p.Ignored) == 1) == (ign == id), "it can be ignored as any other")
		left = zzsym.Or(left, ign != id)
		if bad[i] == 0 {
			zzsym.Assert(all[0].Summary == "about "+id, "details that can be had are shown")
		}
	}
	zzsym.Assert((out.code == 1) == left && (out.code == 0 || out.code == 1), "the exit code is the same with or without details")
	zzsym.Observe(vItoa(out.code) + out.stdout)
}

// what is asked
func verifC10Query() {
	text := func(name string, lo int) string {
		s := ""
		for range lo + zzsym.Choice(name+".len", 3-lo) {
			c := zzsym.Byte(name)
			zzsym.Assume(zzsym.And(c >= 0x20, c < 0x7f))
			zzsym.Assume(zzsym.And(c != '"', c != ','))
			zzsym.Assume(c != ' ')
			s += string([]byte{c})
		}

		return s
	}
	name := text("name", 0)
	ver := text("version", 0)
	eco := zzsym.Pick("eco", "npm", "Alpine:v3.18", "", "PyPI")
	if name == "" {
		return
	}
	commit := ""
	row := eco + ",," + name + "," + ver
	if zzsym.Flag("commit") {
		commit = "abc"
		zzsym.PutFile("poetry.lock", "[[package]]\nname = \"foo\"\nversion = \"1.0\"\n[package.source]\ntype = \"git\"\nresolved_reference = \"abc\"\n")
	}
	var got []vQuery
	s := &vServer{vulns: func(q vQuery) []string { return nil }}
	s.start()
	if commit != "" {
		eco, name, ver = "PyPI", "foo", "1.0"
		vAPIRun("poetry.lock")
	} else {
		if eco == "" {
			if ver == "" {
				return
			}
			commit = ver
		}
		vAPIRun("--parse-as=csv-row", "--", row)
	}
	for _, b := range s.batches {
		got = append(got, b.Queries...)
	}
	if len(got) != 1 {
		zzsym.Assert(len(got) == 1, "the package is asked about")

		return
	}
	q := got[0]
	if eco == "" {
		zzsym.Assert(q.Commit == commit && q.Version == "" && q.Package.Name == "" && q.Package.Ecosystem == "", "a package known by its commit alone is asked about by commit")
	} else if ver != "" {
		zzsym.Assert(q.Package.Name == name && q.Package.Ecosystem == eco && q.Version == ver && q.Commit == "", "the query names the package, its ecosystem and its version exactly")
	} else {
		zzsym.Assert(q.Version == "" && q.Package.Name == "" && q.Package.Ecosystem == "", "a package without a version is not asked about by name")
	}
	zzsym.Observe(q.Package.Name + "|" + q.Package.Ecosystem + "|" + q.Version + "|" + q.Commit)
}

// an extra API database: its own address is used
func verifC10Extra() {
	p := "/" + zzsym.StrUpTo("path", 0, 2, "ab")
	if zzsym.Flag("slash") && p != "/" {
		p += "/"
	}
	base := strings.TrimSuffix("https://example.com"+p, "/")
	query := ""
	if zzsym.Flag("query") {
		query = "?key=" + zzsym.Str("key", 1, "ab")
	}
	zzsym.PutFile("c.yml", "extra-databases:\n  - url: \"https://example.com"+p+query+"\"\n    type: api\n")
	zzsym.PutFile("Cargo.lock", vLockOf("foo", "1.0"))
	id := "V-" + zzsym.Str("id", 1, "aA1") + zzsym.Pick("more", "", "_x", ".b", "-Q")
	s := &vServer{base: base, query: query, vulns: func(q vQuery) []string { return []string{id} }}
	s.start()
	out, d := vRunJSON("--use-dbs=false", "--config=c.yml", "Cargo.lock")
	zzsym.Assert(len(s.odd) == 0, "requests go to the endpoints below the configured address")
	zzsym.Assert(out.code == 1 && len(d.Results) == 1 && len(d.Results[0].Packages) == 1 && vIDs(d.Results[0].Packages[0].Vulnerabilities) == id, "the answers of a configured API are used")
	zzsym.Assert(len(s.fetched) == 1 && s.fetched[0] == id, "the details of each advisory are asked for by its id")
	zzsym.Observe(strings.Join(s.odd, ",") + strings.Join(s.fetched, ","))
}

func vLockOf(name, ver string) string {
	return "[[package]]\nname = \"" + name + "\"\nversion = \"" + ver + "\"\n"
}
