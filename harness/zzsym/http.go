package zzsym

import (
	"archive/zip"
	"bytes"
	"errors"
	"io"
	"io/fs"
	"net/http"
	"net/url"
	"strconv"
	"strings"
)

// ---- HTTP ----

// Req is what the process asked of the network.
type Req struct {
	Method string
	URL    string
	Body   string
	Header http.Header
}

// Resp is what the network answers.
type Resp struct {
	Status int
	Body   string
	ETag   string
	Date   string
	Err    string // transport error
	BadRead bool  // the body cannot be read to the end
}

var handler func(Req) Resp

// Network installs the stand-in for the network.
func Network(h func(Req) Resp) {
	handler = h
	if !Symbolic() {
		http.DefaultTransport = transport{}
		http.DefaultClient.Transport = transport{}
	}
}

type transport struct{}

func (transport) RoundTrip(r *http.Request) (*http.Response, error) { return roundTrip(r) }

type badBody struct{ r io.Reader }

func (b badBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}
func (b badBody) Close() error { return nil }

func roundTrip(r *http.Request) (*http.Response, error) {
	q := Req{Method: r.Method, URL: r.URL.String(), Header: r.Header}
	if r.Body != nil {
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return nil, err
		}
		_ = r.Body.Close()
		q.Body = string(b)
	}
	if handler == nil {
		return nil, errors.New("no network")
	}
	p := handler(q)
	if p.Err != "" {
		return nil, errors.New(p.Err)
	}
	h := http.Header{}
	if p.ETag != "" {
		h.Set("ETag", p.ETag)
	}
	if p.Date != "" {
		h.Set("Date", p.Date)
	}
	var body io.ReadCloser = io.NopCloser(strings.NewReader(p.Body))
	if p.BadRead {
		body = badBody{strings.NewReader(p.Body)}
	}
	return &http.Response{StatusCode: p.Status, Status: strconv.Itoa(p.Status) + " " + http.StatusText(p.Status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: body, ContentLength: -1, Request: r}, nil
}

func httpDo(c *http.Client, r *http.Request) (*http.Response, error) {
	var resp *http.Response
	var err error
	if c != nil && c.Transport != nil {
		resp, err = c.Transport.RoundTrip(r)
	} else {
		resp, err = roundTrip(r)
	}
	if err != nil {
		m := r.Method
		if m == "" {
			m = "GET"
		}
		return nil, &url.Error{Op: m[:1] + strings.ToLower(m[1:]), URL: r.URL.String(), Err: err}
	}
	if resp.StatusCode >= 301 && resp.StatusCode <= 308 && resp.StatusCode != 304 {
		Unsupported("redirect")
	}
	return resp, nil
}

func httpGet(c *http.Client, u string) (*http.Response, error) {
	r, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return httpDo(c, r)
}

// ---- archives ----

// ZipEntry is a member of an archive.
type ZipEntry struct {
	Name string
	Data string
	Bad  bool // cannot be read
}

var zips [][]ZipEntry
var zipFiles map[*zip.File]ZipEntry

const zipPre = "PK\x03\x04zip"

// zipToken stands for an archive; like one, it is longer the more there is in it.
func zipToken(k int) string {
	n := 0
	for _, e := range zips[k] {
		n += len(e.Name) + len(e.Data)
	}
	return zipPre + strconv.Itoa(k) + ";" + strings.Repeat("z", n/16) + "PK"
}

// MakeZip gives the bytes of an archive.
func MakeZip(es []ZipEntry) string {
	if Symbolic() {
		zips = append(zips, es)
		return zipToken(len(zips) - 1)
	}
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	var bad []int
	for _, e := range es {
		f, err := w.CreateHeader(&zip.FileHeader{Name: e.Name, Method: zip.Store})
		if err != nil {
			panic(err)
		}
		if err := w.Flush(); err != nil {
			panic(err)
		}
		if e.Bad && len(e.Data) > 0 {
			bad = append(bad, b.Len())
		}
		if _, err := io.WriteString(f, e.Data); err != nil {
			panic(err)
		}
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	out := b.Bytes()
	for _, i := range bad { // corrupt the stored data: the checksum no longer matches
		out[i] ^= 0x55
	}
	return string(out)
}

func zipNewReader(r io.ReaderAt, size int64) (*zip.Reader, error) {
	b := make([]byte, size)
	n, err := r.ReadAt(b, 0)
	if err != nil && err != io.EOF {
		return nil, err
	}
	s := string(b[:n])
	if !strings.HasPrefix(s, zipPre) {
		return nil, zip.ErrFormat
	}
	num, _, _ := strings.Cut(s[len(zipPre):], ";")
	k, err := strconv.Atoi(num)
	if err != nil || k >= len(zips) || !strings.HasPrefix(s, zipToken(k)) {
		return nil, zip.ErrFormat
	}
	if zipFiles == nil {
		zipFiles = map[*zip.File]ZipEntry{}
	}
	z := &zip.Reader{}
	for _, e := range zips[k] {
		f := &zip.File{FileHeader: zip.FileHeader{Name: e.Name, UncompressedSize64: uint64(len(e.Data))}}
		zipFiles[f] = e
		z.File = append(z.File, f)
	}
	return z, nil
}

type badZip struct{ r io.Reader }

func (b badZip) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = zip.ErrChecksum
	}
	return n, err
}
func (b badZip) Close() error { return nil }

func zipFileOpen(f *zip.File) (io.ReadCloser, error) {
	e, ok := zipFiles[f]
	if !ok {
		return nil, fs.ErrNotExist
	}
	if e.Bad && len(e.Data) > 0 {
		return badZip{strings.NewReader(e.Data)}, nil
	}
	return io.NopCloser(strings.NewReader(e.Data)), nil
}
