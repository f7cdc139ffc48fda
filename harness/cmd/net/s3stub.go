package main

import (
	"bytes"
	"crypto/md5"
	"encoding/hex"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// stub is an in-process object store behind an http.RoundTripper.
type stub struct {
	mu       sync.Mutex
	objs     map[string][]byte
	uploads  map[string]map[int][]byte
	nextID   int
	page     int // objects per listing page
	requests int // requests of the current operation
	fault    func(n int, req *http.Request) string
	open     int // response bodies not closed
	log      []string
	unsigned int
	applied  int
	// gaps makes listings as sparse as a service may: pages without any key that are followed by others, and a last page
	// that holds none.
	gaps   bool
	sparse int
}

type body struct {
	io.Reader
	close func()
	once  sync.Once
}

func (b *body) Close() error { b.once.Do(b.close); return nil }

type failing struct {
	r   io.Reader
	err error
}

func (f failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

func (s *stub) resp(req *http.Request, code int, h map[string]string, b []byte) *http.Response {
	s.open++
	hd := http.Header{}
	for k, v := range h {
		hd.Set(k, v)
	}
	hd.Set("X-Amz-Request-Id", "REQ")
	n := int64(len(b))
	rd := io.Reader(bytes.NewReader(b))
	if req.Method == "HEAD" {
		rd = bytes.NewReader(nil)
	}
	hd.Set("Content-Length", fmt.Sprint(n))
	return &http.Response{Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: hd,
		ContentLength: n, Request: req, Body: &body{Reader: rd, close: func() { s.mu.Lock(); s.open--; s.mu.Unlock() }}}
}

func (s *stub) fail(req *http.Request, code int, name string) *http.Response {
	return s.resp(req, code, map[string]string{"Content-Type": "application/xml"}, []byte(fmt.Sprintf(`<?xml version="1.0" encoding="UTF-8"?><Error><Code>%s</Code><Message>%s</Message><RequestId>REQ</RequestId></Error>`, name, name)))
}

func etag(b []byte) string { h := md5.Sum(b); return `"` + hex.EncodeToString(h[:]) + `"` }

type listResult struct {
	XMLName               xml.Name `xml:"ListBucketResult"`
	Name, Prefix, Marker  string
	NextMarker            string `xml:",omitempty"`
	NextContinuationToken string `xml:",omitempty"`
	KeyCount, MaxKeys     int
	EncodingType          string `xml:",omitempty"`
	IsTruncated           bool
	Contents              []listItem
	CommonPrefixes        []listPrefix
}
type listPrefix struct{ Prefix string }
type listItem struct {
	Key, LastModified, ETag string
	Size                    int
	StorageClass            string
}

func (s *stub) RoundTrip(req *http.Request) (*http.Response, error) {
	var data []byte
	if req.Body != nil {
		data, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.requests++
	if !strings.Contains(req.Header.Get("Authorization"), "Credential=AKIDEXAMPLE/") {
		s.unsigned++
	}
	fault := ""
	if s.fault != nil {
		fault = s.fault(s.requests, req)
	}
	if fault != "" {
		s.applied++
	}
	switch fault {
	case "transport":
		return nil, errors.New("connection reset by peer")
	case "500":
		return s.fail(req, 500, "InternalError"), nil
	case "503":
		return s.fail(req, 503, "ServiceUnavailable"), nil
	case "403":
		return s.fail(req, 403, "AccessDenied"), nil
	case "404-bucket":
		return s.fail(req, 404, "NoSuchBucket"), nil
	case "garbage-200":
		if req.Method == "GET" && strings.Contains(req.URL.RawQuery, "prefix") {
			return s.resp(req, 200, map[string]string{"Content-Type": "text/html"}, []byte("<html><p>proxy error")), nil
		}
	case "garbage-500":
		return s.resp(req, 500, nil, []byte("oops")), nil
	}
	res := s.serve(req, data)
	if fault == "lost-response" { // the request was carried out, the answer is lost
		res.Body.(*body).once.Do(func() { s.open-- })
		return nil, errors.New("connection reset by peer")
	}
	if fault == "short-body" && req.Method == "GET" && res.StatusCode < 300 {
		b, _ := io.ReadAll(res.Body)
		bd := res.Body.(*body)
		bd.Reader = failing{bytes.NewReader(b[:len(b)/2]), io.ErrUnexpectedEOF}
	}
	return res, nil
}

func (s *stub) serve(req *http.Request, data []byte) *http.Response {
	path := strings.TrimPrefix(req.URL.Path, "/")
	if req.URL.Host != "" && !strings.HasPrefix(req.URL.Host, "bkt.") {
		if !strings.HasPrefix(path+"/", "bkt/") {
			return s.fail(req, 404, "NoSuchBucket")
		}
		path = strings.TrimPrefix(strings.TrimPrefix(path, "bkt"), "/")
	}
	key, q := path, req.URL.Query()
	s.log = append(s.log, req.Method+" "+req.URL.Path+"?"+req.URL.RawQuery+" "+req.Header.Get("Range"))
	if key == "" {
		if req.Method == "GET" {
			return s.list(req, q)
		}
		return s.fail(req, 405, "MethodNotAllowed")
	}
	switch req.Method {
	case "HEAD":
		b, ok := s.objs[key]
		if !ok {
			return s.resp(req, 404, nil, nil)
		}
		return s.resp(req, 200, map[string]string{"ETag": etag(b)}, b)
	case "GET":
		b, ok := s.objs[key]
		if !ok {
			return s.fail(req, 404, "NoSuchKey")
		}
		rg := req.Header.Get("Range")
		if rg == "" {
			return s.resp(req, 200, map[string]string{"ETag": etag(b)}, b)
		}
		var lo, hi int
		spec := strings.TrimPrefix(rg, "bytes=")
		parts := strings.SplitN(spec, "-", 2)
		lo, _ = strconv.Atoi(parts[0])
		hi = len(b) - 1
		if parts[1] != "" {
			hi, _ = strconv.Atoi(parts[1])
		}
		if lo >= len(b) {
			return s.fail(req, 416, "InvalidRange")
		}
		if hi >= len(b) {
			hi = len(b) - 1
		}
		return s.resp(req, 206, map[string]string{"ETag": etag(b), "Content-Range": fmt.Sprintf("bytes %d-%d/%d", lo, hi, len(b)), "Accept-Ranges": "bytes"}, b[lo:hi+1])
	case "DELETE":
		if id := q.Get("uploadId"); id != "" {
			delete(s.uploads, id)
		} else {
			delete(s.objs, key)
		}
		return s.resp(req, 204, nil, nil)
	case "PUT":
		if m := req.Header.Get("Content-Md5"); m != "" {
			_ = m
		}
		if id := q.Get("uploadId"); id != "" {
			u, ok := s.uploads[id]
			if !ok {
				return s.fail(req, 404, "NoSuchUpload")
			}
			n, _ := strconv.Atoi(q.Get("partNumber"))
			u[n] = data
			return s.resp(req, 200, map[string]string{"ETag": etag(data)}, nil)
		}
		s.objs[key] = data
		return s.resp(req, 200, map[string]string{"ETag": etag(data)}, nil)
	case "POST":
		if _, ok := q["uploads"]; ok {
			s.nextID++
			id := fmt.Sprint("up", s.nextID)
			s.uploads[id] = map[int][]byte{}
			return s.resp(req, 200, nil, []byte(fmt.Sprintf(`<InitiateMultipartUploadResult><Bucket>bkt</Bucket><Key>%s</Key><UploadId>%s</UploadId></InitiateMultipartUploadResult>`, url.QueryEscape(key), id)))
		}
		id := q.Get("uploadId")
		u, ok := s.uploads[id]
		if !ok {
			return s.fail(req, 404, "NoSuchUpload")
		}
		var c struct {
			Part []struct {
				PartNumber int
				ETag       string
			}
		}
		if err := xml.Unmarshal(data, &c); err != nil || len(c.Part) == 0 {
			return s.fail(req, 400, "MalformedXML")
		}
		var all []byte
		for i, p := range c.Part {
			b, ok := u[p.PartNumber]
			if !ok || etag(b) != p.ETag {
				return s.fail(req, 400, "InvalidPart")
			}
			if i < len(c.Part)-1 && len(b) < 5<<20 {
				return s.fail(req, 400, "EntityTooSmall")
			}
			all = append(all, b...)
		}
		delete(s.uploads, id)
		s.objs[key] = all
		return s.resp(req, 200, nil, []byte(fmt.Sprintf(`<CompleteMultipartUploadResult><Location>x</Location><Bucket>bkt</Bucket><Key>k</Key><ETag>%s</ETag></CompleteMultipartUploadResult>`, strings.ReplaceAll(etag(all), `"`, "&quot;"))))
	}
	return s.fail(req, 405, "MethodNotAllowed")
}

func (s *stub) keys(prefix string) (out []string) {
	for k := range s.objs {
		if strings.HasPrefix(k, prefix) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

func (s *stub) list(req *http.Request, q url.Values) *http.Response {
	prefix, after := q.Get("prefix"), q.Get("marker")
	if q.Get("list-type") == "2" {
		after = q.Get("continuation-token")
		if after == "" {
			after = q.Get("start-after")
		}
	}
	max := 1000
	if m := q.Get("max-keys"); m != "" {
		if n, err := strconv.Atoi(m); err == nil && n < max {
			max = n
		}
	}
	if s.page < max {
		max = s.page
	}
	l := listResult{Name: "bkt", Prefix: prefix, Marker: after, MaxKeys: max}
	esc := func(x string) string {
		if q.Get("encoding-type") == "url" {
			return url.QueryEscape(x)
		}
		return x
	}
	gap, last := "", ""
	delim, rolled := q.Get("delimiter"), ""
	for _, k := range s.keys(prefix) {
		if k <= after && after != "" {
			continue
		}
		group := ""
		if delim != "" { // keys with the delimiter behind the prefix are listed as one group
			if i := strings.Index(k[len(prefix):], delim); i >= 0 {
				group = k[:len(prefix)+i+len(delim)]
			}
		}
		if group != "" && (group == rolled || group == after) {
			continue
		}
		if s.gaps && delim == "" && len(l.Contents) == 0 && !strings.HasSuffix(after, "!") {
			if gap = after + "!"; after == "" {
				gap = prefix + "!"
			}
			if gap < k { // no key lies between
				l.IsTruncated = true
				break
			}
			gap = ""
		}
		if len(l.Contents)+len(l.CommonPrefixes) == max {
			l.IsTruncated = true
			break
		}
		if group != "" {
			last, rolled = group, group
			l.CommonPrefixes = append(l.CommonPrefixes, listPrefix{esc(group)})
			continue
		}
		last = k
		l.Contents = append(l.Contents, listItem{Key: esc(k), LastModified: "2024-01-01T00:00:00.000Z", ETag: etag(s.objs[k]), Size: len(s.objs[k]), StorageClass: "STANDARD"})
	}
	l.KeyCount = len(l.Contents) + len(l.CommonPrefixes)
	if s.gaps && delim == "" && len(l.Contents) == max {
		l.IsTruncated = true
	}
	if gap != "" || s.gaps && delim == "" && len(l.Contents) == 0 {
		s.sparse++
	}
	if l.IsTruncated {
		if gap != "" {
			last = gap
		}
		l.NextContinuationToken = last
		if q.Get("delimiter") != "" || gap != "" {
			l.NextMarker = last
		}
	}
	b, _ := xml.Marshal(l)
	return s.resp(req, 200, map[string]string{"Content-Type": "application/xml"}, append([]byte(xml.Header), b...))
}
