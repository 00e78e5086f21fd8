package http

import (
	"bufio"
	"io"
	"net"
	"net/http"
	"net/url"
	"time"
	shimnet "vsim/shim/net"
)

// Client is a minimal HTTP/1.1 client over the simulated network; the response
// is parsed by the real net/http parser.
type Client struct {
	Transport     http.RoundTripper
	CheckRedirect func(req *http.Request, via []*http.Request) error
	Jar           http.CookieJar
	Timeout       time.Duration
}

var DefaultClient = &Client{}

type body struct {
	io.ReadCloser
	nc net.Conn
}

func (b *body) Close() error {
	e := b.nc.Close()
	return e
}

func (c *Client) Do(req *http.Request) (*http.Response, error) {
	host := req.URL.Host
	if req.URL.Port() == "" {
		host = net.JoinHostPort(req.URL.Hostname(), "80")
	}
	nc, err := (&shimnet.Dialer{Timeout: c.Timeout}).DialContext(nil, "tcp", host)
	if err != nil {
		return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: err}
	}
	req.Close = true
	if err := req.Write(nc); err != nil {
		nc.Close()
		return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: err}
	}
	resp, err := http.ReadResponse(bufio.NewReader(nc), req)
	if err != nil {
		nc.Close()
		return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: err}
	}
	resp.Body = &body{resp.Body, nc}
	return resp, nil
}

func (c *Client) Get(u string) (*http.Response, error) {
	req, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func Get(u string) (*http.Response, error) { return DefaultClient.Get(u) }
