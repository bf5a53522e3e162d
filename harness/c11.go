package main

import (
	"strings"

	"github.com/g-rath/osv-detector/internal/zzsym"
)

var _ = zzsym.Reg("verifC11Offline", verifC11Offline)
var _ = zzsym.Reg("verifC12History", verifC12History)
var _ = zzsym.Reg("verifC12Fault", verifC12Fault)

const vZipURL = "https://osv-vulnerabilities.storage.googleapis.com/crates.io/all.zip"

// offline: nothing is fetched, only what was cached is used, and doing without is an error
func verifC11Offline() {
	id := "A-" + zzsym.Str("id", 1, "123456789")
	z := zzsym.MakeZip([]zzsym.ZipEntry{{Name: "a.json", Data: vSimple(id, "crates.io", "foo").vJSON()}})
	zzsym.PutFile("Cargo.lock", vLockOf("foo", "1.0"))
	reqs := 0
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		reqs++
		if r.URL == vZipURL || r.URL == "https://example.com/x.zip" {
			return zzsym.Resp{Status: 200, Body: z, ETag: "\"e\"", Date: "today"}
		}

		return zzsym.Resp{Status: 404}
	})
	cached := zzsym.Flag("cached")
	extra := zzsym.Flag("extra")
	useDBs := !extra || zzsym.Flag("dbs")
	args := []string{"--config=c.yml", "Cargo.lock"}
	if !useDBs {
		args = append([]string{"--use-dbs=false"}, args...)
	}
	cfg := "ignore: []\n"
	if extra {
		cfg = "extra-databases:\n  - url: https://example.com/x.zip\n"
	}
	zzsym.PutFile("c.yml", cfg)
	if cached {
		out, _ := vRunJSON(args...)
		zzsym.Assert(out.code == 1, "a run that can download works")
	}
	if cached && zzsym.Flag("damage") { // nothing usable is left
		cached = false
		data := zzsym.Pick("data", "", "{", "[]", "{\"etag\":1}")
		for _, f := range zzsym.ListDir(zzsym.TempDir()) {
			zzsym.PutFile(zzsym.TempDir()+"/"+f, data)
		}
	}
	// the network is still there, but must not be used
	reqs = 0
	api := zzsym.Choice("api", 3)
	oargs := append([]string{"--offline"}, args...)
	switch api {
	case 1:
		oargs = append([]string{"--use-api"}, oargs...)
	case 2:
		zzsym.PutFile("c.yml", cfg+"extra-databases:\n  - url: https://example.com/v1\n    type: api\n")
		if extra {
			zzsym.PutFile("c.yml", cfg+"  - url: https://example.com/v1\n    type: api\n")
		} else {
			zzsym.PutFile("c.yml", "extra-databases:\n  - url: https://example.com/v1\n    type: api\n")
		}
	}
	list := zzsym.Flag("list")
	if list {
		oargs = append([]string{"--list-packages"}, oargs...)
	}
	if list {
		out := vRun(oargs...)
		zzsym.Assert(reqs == 0 && out.code == 0, "listing packages needs no database")

		return
	}
	out, d := vRunJSON(oargs...)
	zzsym.Assert(reqs == 0, "nothing is requested from the network when offline")
	if len(d.Results) != 1 || len(d.Results[0].Packages) != 1 {
		zzsym.Assert(false, "the package is reported")

		return
	}
	got := d.Results[0].Packages[0].Vulnerabilities
	if cached {
		zzsym.Assert(len(got) == 1 && vHasID(got, id), "offline uses the databases downloaded before")
		if api == 0 {
			zzsym.Assert(out.code == 1, "offline gives the same verdict as before")
		}
	} else {
		zzsym.Assert(len(got) == 0 && out.code == 127, "a database that was never downloaded is an error offline")
		zzsym.Assert(vHas(out.stderr, "failed"), "the missing database is reported")
	}
	if api != 0 {
		zzsym.Assert(out.code == 127, "an API cannot be used offline, which is an error")
	}
	zzsym.Observe(vItoa(out.code) + vShow(d))
}

// vHost serves an archive the way a well-behaved host does, honouring conditional requests.
type vHost struct {
	version  int
	etags    bool
	dates    bool
	zips     []string
	requests []string
	full     int
	bare     int // a version that is answered without saying what version it is
}

func (h *vHost) tag() string { return "\"v" + vItoa(h.version) + "\"" }
func (h *vHost) answer(r zzsym.Req) zzsym.Resp {
	p := zzsym.Resp{Status: 200, Body: h.zips[h.version]}
	if h.etags {
		p.ETag = h.tag()
	}
	if h.dates {
		p.Date = "Mon, 0" + vItoa(h.version+1) + " Jan 2024 00:00:00 GMT"
	}
	inm, ims := r.Header.Get("If-None-Match"), r.Header.Get("If-Modified-Since")
	h.requests = append(h.requests, inm+"|"+ims)
	same := false
	if h.bare > 0 && h.version == h.bare {
		p.ETag, p.Date = "", ""
	} else if inm != "" {
		same = h.etags && inm == h.tag()
	} else if ims != "" {
		same = h.dates && ims == p.Date
	}
	if same {
		p.Status, p.Body = 304, ""
	} else {
		h.full++
	}

	return p
}

// over any history of updates, failures and offline runs, results are those of the newest archive seen
func verifC12History() {
	ids := []string{"A-1", "A-2", "A-3"}
	h := &vHost{etags: zzsym.Flag("etags"), dates: zzsym.Flag("dates")}
	for i, id := range ids { // each archive is shorter than the one before
		o := vSimple(id, "crates.io", "foo")
		o.details = strings.Repeat("x", 200*(2-i))
		h.zips = append(h.zips, zzsym.MakeZip([]zzsym.ZipEntry{{Name: "a.json", Data: o.vJSON()}}))
	}
	other := zzsym.MakeZip([]zzsym.ZipEntry{{Name: "a.json", Data: vSimple("B-1", "crates.io", "foo").vJSON()}})
	mode := 0
	status := 0
	seen := -1 // newest archive received in full
	elsewhere := ""
	away := func() { // another address, possibly nearly the same
		if elsewhere != "" {
			return
		}
		elsewhere = "https://example.com/a.zip?x=1"
		if h.etags && h.dates || zzsym.Tier() > 0 {
			elsewhere = zzsym.Pick("elsewhere", "https://example.com/a.zip?x=1", "https://example.com/b/a.zip", "http://example.com/a.zip", "https://example.org/a.zip", "https://example.com/A.zip", "https://example.com/a.zip/")
		}
		zzsym.PutFile("b.yml", "extra-databases:\n  - url: "+elsewhere+"\n    type: zip\n")
	}
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		if r.URL == elsewhere {
			return zzsym.Resp{Status: 200, Body: other, ETag: "\"v0\"", Date: "Mon, 01 Jan 2024 00:00:00 GMT"}
		}
		if r.URL != "https://example.com/a.zip" {
			return zzsym.Resp{Status: 404}
		}
		p := h.answer(r)
		switch mode {
		case 1:
			return zzsym.Resp{Err: "down"}
		case 2:
			if status == 0 {
				status = []int{404, 503, 304}[zzsym.Choice("status", 3)]
			}
			st := status
			if st == 304 && r.Header.Get("If-None-Match")+r.Header.Get("If-Modified-Since") != "" || st == 304 && seen >= 0 { // a host that says "unchanged" without being asked
				st = 500
			}

			return zzsym.Resp{Status: st, Body: "oops", ETag: "\"v0\"", Date: "Mon, 01 Jan 2024 00:00:00 GMT"}
		case 3:
			if p.Status == 200 {
				p.Body = p.Body[:len(p.Body)/2]
				p.BadRead = true
			}
		}

		return p
	})
	zzsym.PutFile("Cargo.lock", vLockOf("foo", "1.0"))
	zzsym.PutFile("a.yml", "extra-databases:\n  - url: https://example.com/a.zip\n")
	steps := 3 + zzsym.Tier()
	for i := range steps {
		if i > 0 && h.version < 2 && zzsym.Flag("update") {
			h.version++
			if h.version == 1 && h.etags && zzsym.Flag("bare") {
				h.bare = 1
			}
		}
		k := 0
		if h.bare > 0 && zzsym.Tier() == 0 {
			k = 4 * zzsym.Choice("step", 2)
		} else {
			k = zzsym.Choice("step", 6)
		}
		mode = 0
		args := []string{"--use-dbs=false", "--config=a.yml", "Cargo.lock"}
		if k >= 1 && k <= 3 {
			mode = k
		}
		if k == 4 {
			args = append([]string{"--offline"}, args...)
		}
		if k == 5 {
			away()
			_, d := vRunJSON("--use-dbs=false", "--config=b.yml", "Cargo.lock")
			zzsym.Assert(vShowIDs(d) == "B-1", "archives from different addresses are kept apart")

			continue
		}
		before := h.full
		out, d := vRunJSON(args...)
		got := vShowIDs(d)
		switch {
		case k == 0 || (k == 3 && h.full == before):
			zzsym.Assert(out.code == 1 && got == ids[h.version], "a run that can download reports what the current archive says")
			if h.full > before {
				seen = h.version
			}
		case k == 4:
			switch {
			case seen < 0:
				zzsym.Assert(out.code == 127 && got == "", "offline without a download before is an error")
			default:
				zzsym.Assert(out.code == 1 && got == ids[seen], "offline uses the last archive received in full")
			}
		default:
			zzsym.Assert(out.code == 127 && got == "", "a failed download is an error, not an empty database")
			zzsym.Assert(vHas(out.stderr, "unable to fetch"), "a failed download is reported")
		}
		zzsym.Observe(vItoa(out.code) + got)
	}
	zzsym.Observe(strings.Join(h.requests, ";"))
}

func vShowIDs(d vDoc) string {
	var ids []string
	for _, f := range d.Results {
		for _, p := range f.Packages {
			for _, v := range p.Vulnerabilities {
				ids = append(ids, v.ID)
			}
		}
	}

	return strings.Join(ids, ",")
}

// whatever is in the cache file and whether or not it can be written, a working host gives the current results
func verifC12Fault() {
	z := zzsym.MakeZip([]zzsym.ZipEntry{{Name: "a.json", Data: vSimple("A-1", "crates.io", "foo").vJSON()}})
	honest := zzsym.Flag("conditional")
	zzsym.Network(func(r zzsym.Req) zzsym.Resp {
		if honest && (r.Header.Get("If-None-Match") == "\"e\"" || (r.Header.Get("If-None-Match") == "" && r.Header.Get("If-Modified-Since") == "today")) {
			return zzsym.Resp{Status: 304, ETag: "\"e\"", Date: "today"}
		}

		return zzsym.Resp{Status: 200, Body: z, ETag: "\"e\"", Date: "today"}
	})
	zzsym.PutFile("Cargo.lock", vLockOf("foo", "1.0"))
	zzsym.PutFile("a.yml", "extra-databases:\n  - url: https://example.com/a.zip\n")
	args := []string{"--use-dbs=false", "--config=a.yml", "Cargo.lock"}
	vRun(args...)
	cache := ""
	for _, f := range zzsym.ListDir(zzsym.TempDir()) { // wherever it is kept
		cache = zzsym.TempDir() + "/" + f
	}
	if cache == "" {
		return
	}
	switch zzsym.Choice("cache", 12) {
	case 0:
		zzsym.RemoveFile(cache)
	case 1:
		zzsym.PutFile(cache, "")
	case 2:
		zzsym.PutFile(cache, "null")
	case 3:
		zzsym.PutFile(cache, "{\"url\":\"https://exam")
	case 4:
		zzsym.PutFile(cache, "[]")
	case 5:
		zzsym.PutFile(cache, "{}")
	case 6:
		zzsym.PutFile(cache, "{\"url\":\"https://example.com/a.zip\",\"etag\":\"\\\"old\\\"\",\"date\":\"yesterday\",\"body\":\"AAAA\"}")
	case 7:
		zzsym.PutFile(cache, "{\"etag\":\"\\\"e\\\"\",\"date\":\"today\",\"body\":5}")
	case 8:
		zzsym.PutFile(cache, "{\"etag\":\"\\\"e\\\"\",\"date\":\"today\",\"body\":\"!\"}")
	case 9: // cannot be a file
		zzsym.RemoveFile(cache)
		zzsym.PutDir(cache)
	case 10:
		zzsym.PutFile(cache, "{\"url\":\"https://example.com/a.zip\",\"etag\":\"\",\"date\":\"yesterday\",\"body\":\"\"}")
	case 11: // as it was
	}
	if zzsym.Flag("full") {
		zzsym.DiskFull(true)
	}
	for range 2 {
		out, d := vRunJSON(args...)
		zzsym.Assert(out.code == 1 && vShowIDs(d) == "A-1", "a damaged or unwritable cache never changes the results")
		zzsym.Observe(vItoa(out.code))
	}
}
