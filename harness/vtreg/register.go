// Package vtreg is a stand-in for the register service: it lists the gateways and providers it is told to.
package vtreg

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
)

// Server is the register service.
type Server struct {
	mu        sync.Mutex
	gateways  []register.GatewayRegister
	providers []register.ProviderRegister
	raw       map[string]string // kind -> text answered instead of the list
	status    int
	srv       *httptest.Server

	// Delay, when set, is called before each list is read (outside the lock).
	Delay func(kind string)
	// Gets counts the listings served.
	Gets map[string]int
}

// New starts a register.
func New() *Server {
	s := &Server{raw: map[string]string{}, Gets: map[string]int{}}
	s.srv = httptest.NewServer(http.HandlerFunc(s.serve))
	return s
}

// URL is the address of the register.
func (s *Server) URL() string { return s.srv.URL }

// Close stops the register.
func (s *Server) Close() { s.srv.CloseClientConnections(); s.srv.Close() }

// SetGateways replaces the gateway list.
func (s *Server) SetGateways(g ...register.GatewayRegister) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.gateways = append([]register.GatewayRegister{}, g...)
}

// SetProviders replaces the provider list.
func (s *Server) SetProviders(p ...register.ProviderRegister) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.providers = append([]register.ProviderRegister{}, p...)
}

// Gateways returns the list.
func (s *Server) Gateways() []register.GatewayRegister {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]register.GatewayRegister{}, s.gateways...)
}

// Providers returns the list.
func (s *Server) Providers() []register.ProviderRegister {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]register.ProviderRegister{}, s.providers...)
}

// SetRaw makes a listing answer with this text (empty: the list again).
func (s *Server) SetRaw(kind, text string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.raw[kind] = text
}

// SetStatus makes every request answer with this status (0: normal service).
func (s *Server) SetStatus(n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.status = n
}

func (s *Server) serve(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	vt.Look("a request to the register", []byte(fmt.Sprintf("%s %v %s", r.URL, r.Header, body)))
	parts := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	if len(parts) < 2 || parts[0] != "registers" {
		w.WriteHeader(404)
		return
	}
	kind := parts[1]
	if s.Delay != nil {
		s.Delay(kind)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.status != 0 {
		w.WriteHeader(s.status)
		w.Write([]byte(`{"code":500,"message":"register is broken"}`))
		return
	}
	w.Header().Set("Content-Type", "application/json")
	switch r.Method {
	case "GET":
		s.Gets[kind]++
		if t := s.raw[kind]; t != "" {
			w.Write([]byte(t))
			return
		}
		list := []map[string]string{}
		if kind == "gateway" {
			for _, g := range s.gateways {
				list = append(list, gatewayJSON(g))
			}
		} else {
			for _, p := range s.providers {
				list = append(list, providerJSON(p))
			}
		}
		var v interface{} = list
		if len(parts) > 2 {
			v = nil
			for _, e := range list {
				if e["nodeId"] == parts[2] {
					v = e
				}
			}
			if v == nil {
				w.WriteHeader(404)
				return
			}
		}
		b, _ := json.Marshal(v)
		w.Write(b)
	case "POST":
		if kind == "gateway" {
			var m map[string]string
			if json.Unmarshal(body, &m) != nil {
				w.WriteHeader(400)
				return
			}
			g := register.GatewayRegister{NodeID: m["nodeId"], Address: m["address"], RootSigningKey: m["rootSigningKey"], SigningKey: m["signingKey"], RegionCode: m["regionCode"],
				NetworkInfoGateway: m["networkInfoGateway"], NetworkInfoProvider: m["networkInfoProvider"], NetworkInfoClient: m["networkInfoClient"], NetworkInfoAdmin: m["networkInfoAdmin"]}
			for i := range s.gateways {
				if s.gateways[i].NodeID == g.NodeID {
					s.gateways[i] = g
					return
				}
			}
			s.gateways = append(s.gateways, g)
		} else {
			var m map[string]string
			if json.Unmarshal(body, &m) != nil {
				w.WriteHeader(400)
				return
			}
			p := register.ProviderRegister{NodeID: m["nodeId"], Address: m["address"], RootSigningKey: m["rootSigningKey"], SigningKey: m["signingKey"], RegionCode: m["regionCode"],
				NetworkInfoGateway: m["networkInfoGateway"], NetworkInfoClient: m["networkInfoClient"], NetworkInfoAdmin: m["networkInfoAdmin"]}
			for i := range s.providers {
				if s.providers[i].NodeID == p.NodeID {
					s.providers[i] = p
					return
				}
			}
			s.providers = append(s.providers, p)
		}
	case "DELETE":
		if kind == "gateway" {
			s.gateways = nil
		} else {
			s.providers = nil
		}
	}
}

// Sleep is a Delay of fixed length.
func Sleep(d time.Duration) func(string) { return func(string) { time.Sleep(d) } }

// The member names are those of the register's API description, spelt out here so as not to depend on the code under test.

func gatewayJSON(g register.GatewayRegister) map[string]string {
	return trim(map[string]string{"nodeId": g.NodeID, "address": g.Address, "rootSigningKey": g.RootSigningKey, "signingKey": g.SigningKey, "regionCode": g.RegionCode,
		"networkInfoGateway": g.NetworkInfoGateway, "networkInfoProvider": g.NetworkInfoProvider, "networkInfoClient": g.NetworkInfoClient, "networkInfoAdmin": g.NetworkInfoAdmin})
}

func providerJSON(p register.ProviderRegister) map[string]string {
	return trim(map[string]string{"nodeId": p.NodeID, "address": p.Address, "rootSigningKey": p.RootSigningKey, "signingKey": p.SigningKey, "regionCode": p.RegionCode,
		"networkInfoGateway": p.NetworkInfoGateway, "networkInfoClient": p.NetworkInfoClient, "networkInfoAdmin": p.NetworkInfoAdmin})
}

// trim drops empty members, as the register does.
func trim(m map[string]string) map[string]string {
	for k, v := range m {
		if v == "" {
			delete(m, k)
		}
	}
	return m
}

// Listings is the number of listings served.
func (s *Server) Listings() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, v := range s.Gets {
		n += v
	}
	return n
}

// Count is the number of listings of a kind of node served.
func (s *Server) Count(kind string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Gets[kind]
}
