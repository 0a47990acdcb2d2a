// Package vtredis is an in-process stand-in for the redis server behind the register service: the hash commands over
// RESP, with faults on demand.
package vtredis

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
)

// Fault decides what happens to a command: "" runs it, "error" answers with an error, "close" drops the connection
// without running it, "lose" runs it and drops the connection before answering.
type Fault func(cmd []string) string

// Server is the stand-in.
type Server struct {
	mu      sync.Mutex
	addr    string
	l       net.Listener
	conns   map[net.Conn]bool
	data    map[string]map[string]string
	fault   Fault
	max     int
	maxOpen int
	refused int
}

// New listens on addr.
func New(addr string) (*Server, error) {
	s := &Server{addr: addr, conns: map[net.Conn]bool{}, data: map[string]map[string]string{}}
	return s, s.Up()
}

// Up starts listening (again).
func (s *Server) Up() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.l != nil {
		return nil
	}
	l, err := net.Listen("tcp", s.addr)
	if err != nil {
		return err
	}
	s.l = l
	go s.accept(l)
	return nil
}

// Down closes the listener and every connection; the data stay.
func (s *Server) Down() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.l != nil {
		s.l.Close()
		s.l = nil
	}
	for c := range s.conns {
		c.Close()
	}
}

// Reset empties the store and removes faults.
func (s *Server) Reset() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.data = map[string]map[string]string{}
	s.fault = nil
}

// SetFault installs a fault plan.
func (s *Server) SetFault(f Fault) { s.mu.Lock(); s.fault = f; s.mu.Unlock() }

// SetMax limits the number of open connections, as redis does (0: no limit).
func (s *Server) SetMax(n int) { s.mu.Lock(); s.max = n; s.mu.Unlock() }

// Refused returns how many connections were refused for the limit.
func (s *Server) Refused() int { s.mu.Lock(); defer s.mu.Unlock(); return s.refused }

// Put stores a raw field, as another writer would.
func (s *Server) Put(key, field, value string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.data[key] == nil {
		s.data[key] = map[string]string{}
	}
	s.data[key][field] = value
}

func (s *Server) accept(l net.Listener) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		if s.l != l {
			s.mu.Unlock()
			c.Close()
			continue
		}
		if s.max > 0 && len(s.conns) >= s.max {
			s.refused++
			s.mu.Unlock()
			io.WriteString(c, "-ERR max number of clients reached\r\n")
			c.Close()
			continue
		}
		s.conns[c] = true
		s.mu.Unlock()
		go s.serve(c)
	}
}

func readCommand(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if !strings.HasPrefix(line, "*") {
		return strings.Fields(line), nil
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil || n < 0 || n > 1<<16 {
		return nil, fmt.Errorf("bad array %q", line)
	}
	var res []string
	for i := 0; i < n; i++ {
		h, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		h = strings.TrimRight(h, "\r\n")
		if !strings.HasPrefix(h, "$") {
			return nil, fmt.Errorf("bad bulk %q", h)
		}
		k, err := strconv.Atoi(h[1:])
		if err != nil || k < 0 || k > 1<<26 {
			return nil, fmt.Errorf("bad bulk %q", h)
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		res = append(res, string(b[:k]))
	}
	return res, nil
}

func bulk(v string) string { return "$" + strconv.Itoa(len(v)) + "\r\n" + v + "\r\n" }

func (s *Server) run(cmd []string) string {
	h := func(k string) map[string]string {
		if s.data[k] == nil {
			s.data[k] = map[string]string{}
		}
		return s.data[k]
	}
	bad := "-ERR wrong number of arguments\r\n"
	switch c := strings.ToUpper(cmd[0]); {
	case c == "PING":
		return "+PONG\r\n"
	case c == "AUTH" || c == "SELECT" || c == "CLIENT":
		return "+OK\r\n"
	case (c == "HSET" || c == "HMSET") && len(cmd) >= 4 && len(cmd)%2 == 0:
		n := 0
		for i := 2; i < len(cmd); i += 2 {
			if _, dup := h(cmd[1])[cmd[i]]; !dup {
				n++
			}
			h(cmd[1])[cmd[i]] = cmd[i+1]
		}
		if c == "HMSET" {
			return "+OK\r\n"
		}
		return fmt.Sprintf(":%d\r\n", n)
	case c == "HGET" && len(cmd) == 3:
		if v, ok := h(cmd[1])[cmd[2]]; ok {
			return bulk(v)
		}
		return "$-1\r\n"
	case c == "HEXISTS" && len(cmd) == 3:
		if _, ok := h(cmd[1])[cmd[2]]; ok {
			return ":1\r\n"
		}
		return ":0\r\n"
	case (c == "HGETALL" || c == "HVALS" || c == "HKEYS") && len(cmd) == 2:
		var b strings.Builder
		n := 0
		for k, v := range h(cmd[1]) {
			if c != "HVALS" {
				b.WriteString(bulk(k))
				n++
			}
			if c != "HKEYS" {
				b.WriteString(bulk(v))
				n++
			}
		}
		return fmt.Sprintf("*%d\r\n", n) + b.String()
	case c == "HLEN" && len(cmd) == 2:
		return fmt.Sprintf(":%d\r\n", len(h(cmd[1])))
	case c == "HDEL" && len(cmd) >= 3:
		n := 0
		for _, f := range cmd[2:] {
			if _, ok := h(cmd[1])[f]; ok {
				n++
			}
			delete(h(cmd[1]), f)
		}
		return fmt.Sprintf(":%d\r\n", n)
	case (c == "DEL" || c == "UNLINK") && len(cmd) >= 2:
		n := 0
		for _, f := range cmd[1:] {
			if len(s.data[f]) > 0 {
				n++
			}
			delete(s.data, f)
		}
		return fmt.Sprintf(":%d\r\n", n)
	case c == "EXISTS" && len(cmd) == 2:
		if len(s.data[cmd[1]]) > 0 {
			return ":1\r\n"
		}
		return ":0\r\n"
	case c == "HSET" || c == "HGET" || c == "HDEL" || c == "HGETALL":
		return bad
	}
	return "-ERR unknown command '" + cmd[0] + "'\r\n"
}

func (s *Server) serve(c net.Conn) {
	defer func() {
		c.Close()
		s.mu.Lock()
		delete(s.conns, c)
		s.mu.Unlock()
	}()
	r := bufio.NewReader(c)
	for {
		cmd, err := readCommand(r)
		if err != nil {
			return
		}
		if len(cmd) == 0 {
			continue
		}
		s.mu.Lock()
		f := ""
		if s.fault != nil {
			f = s.fault(cmd)
		}
		var res string
		switch f {
		case "":
			res = s.run(cmd)
		case "error":
			res = "-ERR injected failure\r\n"
		case "lose":
			s.run(cmd)
		}
		s.mu.Unlock()
		if f == "close" || f == "lose" {
			return
		}
		if _, err := io.WriteString(c, res); err != nil {
			return
		}
	}
}
