// Package vtnode runs the real gateway and provider programs as processes and talks to them over their network
// interfaces, with stand-ins for the register, the Lotus node and other retrieval nodes.
package vtnode

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtpay"
	"github.com/ConsenSys/fc-retrieval/vtreg"
)

// T is what a check needs of rapid.T or testing.T.
type T interface {
	Fatalf(format string, args ...interface{})
}

var (
	binMu sync.Mutex
	bins  = map[string]string{}
)

// Bin returns the path of the gateway or provider program, building it if the runner has not.
func Bin(kind string) string {
	binMu.Lock()
	defer binMu.Unlock()
	if p := os.Getenv("VERIF_BIN_" + strings.ToUpper(kind)); p != "" {
		return p
	}
	if bins[kind] == "" {
		d, err := os.MkdirTemp("", "verif-bin")
		if err != nil {
			vt.Infra("%v", err)
		}
		p := filepath.Join(d, kind)
		c := exec.Command("go", "build", "-ldflags=-s -w", "-o", p, "github.com/ConsenSys/fc-retrieval/"+kind+"/cmd/"+kind)
		if out, err := c.CombinedOutput(); err != nil {
			vt.Infra("cannot build the %s: %v\n%s", kind, err, out)
		}
		bins[kind] = p
	}
	return bins[kind]
}

// Config of a node.
type Config struct {
	SearchPrice, OfferPrice, Topup int64
	Timeout                        string   // of peer connections
	Interval                       string   // between looks at the register; "-" for none given
	File                           string   // contents of the file .env
	Env                            []string // further variables, which count instead of the usual ones
}

// Node is a running gateway or provider.
type Node struct {
	Kind                      string
	Client, Admin, Peer, Prov string // ports; Prov is the gateway's access point for providers
	Config                    Config
	Reg                       *vtreg.Server
	ID                        *nodeid.NodeID
	Key                       *fcrcrypto.KeyPair
	Ver                       *fcrcrypto.KeyVersion
	Wallet                    *vtpay.Wallet

	dir  string
	cmd  *exec.Cmd
	log  *ring
	done chan struct{}
	werr error
}

// ring keeps the end of a node's output.
type ring struct {
	mu sync.Mutex
	b  []byte
}

func (r *ring) Write(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if vt.Tapping() {
		from := len(r.b) - 1024
		if from < 0 {
			from = 0
		}
		vt.Look("the node's log", append(append([]byte{}, r.b[from:]...), p...))
	}
	r.b = append(r.b, p...)
	if len(r.b) > 1<<18 {
		r.b = append([]byte{}, r.b[len(r.b)-1<<17:]...)
	}
	return len(p), nil
}

func (r *ring) String() string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return string(r.b)
}

// Start starts a node against a register.
func Start(kind string, reg *vtreg.Server, cfg Config) *Node {
	for try := 0; try < 8; try++ {
		n := &Node{Kind: kind, Reg: reg, Config: cfg, Client: vt.Port(), Admin: vt.Port(), Peer: vt.Port(), log: &ring{}, done: make(chan struct{})}
		if kind == "gateway" {
			n.Prov = vt.Port()
		}
		if n.start() {
			return n
		}
	}
	vt.Infra("the %s does not start", kind)
	return nil
}

func (n *Node) start() bool {
	d, err := os.MkdirTemp("", "verif-node")
	if err != nil {
		vt.Infra("%v", err)
	}
	n.dir = d
	os.Mkdir(filepath.Join(d, "logs"), 0o755)
	if n.Config.Timeout == "" {
		n.Config.Timeout = "20s"
	}
	if n.Config.Interval == "" {
		n.Config.Interval = "10s"
	}
	n.cmd = exec.Command(Bin(n.Kind))
	n.cmd.Dir = d
	env := []string{"PATH=" + os.Getenv("PATH"), "HOME=" + d, "TMPDIR=" + d, "TZ=" + os.Getenv("TZ"), "BIND_REST_API=" + n.Client, "BIND_ADMIN_API=" + n.Admin, "BIND_GATEWAY_API=" + n.Peer,
		"REGISTER_API_URL=" + n.Reg.URL(), "LOG_LEVEL=error", "LOG_TARGET=STDOUT", "LOG_SERVICE_NAME=" + n.Kind, "IP=127.0.0.1",
		"TCP_INACTIVITY_TIMEOUT=" + n.Config.Timeout, "TCP_LONG_INACTIVITY_TIMEOUT=" + n.Config.Timeout, "DOCKER_NAME=node", "PROVIDER_SIG_ALG=1",
		fmt.Sprint("SEARCH_PRICE=", n.Config.SearchPrice), fmt.Sprint("OFFER_PRICE=", n.Config.OfferPrice), fmt.Sprint("TOPUP_AMOUNT=", n.Config.Topup)}
	if n.Config.Interval != "-" {
		env = append(env, "REGISTER_REFRESH_DURATION="+n.Config.Interval)
	}
	if n.Config.File != "" {
		os.WriteFile(filepath.Join(d, ".env"), []byte(n.Config.File), 0o644)
	}
	if n.Kind == "gateway" {
		env = append(env, "BIND_PROVIDER_API="+n.Prov)
	}
	if vt.Tapping() {
		env = append(env, "LOG_LEVEL=trace")
	}
	n.cmd.Env = append(env, n.Config.Env...)
	n.cmd.Stdout, n.cmd.Stderr = n.log, n.log
	before := n.listings()
	if err := n.cmd.Start(); err != nil {
		vt.Infra("cannot start the %s: %v", n.Kind, err)
	}
	go func() { n.werr = n.cmd.Wait(); close(n.done) }()
	ports := []string{n.Client, n.Admin, n.Peer}
	if n.Prov != "" {
		ports = append(ports, n.Prov)
	}
	deadline := time.Now().Add(vt.Hang)
	for _, p := range ports {
		for {
			if c, err := net.DialTimeout("tcp", "127.0.0.1:"+p, 5*time.Second); err == nil {
				c.Close()
				break
			}
			if strings.Contains(n.log.String(), "address already in use") {
				n.Stop()
				return false
			}
			select {
			case <-n.done:
				if strings.Contains(n.log.String(), "panic") && !strings.Contains(n.log.String(), "address already in use") {
					fmt.Println(n.log.String())
				}
				n.Stop()
				return false
			default:
			}
			if time.Now().After(deadline) {
				n.Stop()
				return false
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	// the register manager is running once it has polled the register
	for n.listings() == before {
		if time.Now().After(deadline) {
			n.Stop()
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
	return true
}

func (n *Node) listings() int { return n.Reg.Listings() }

// Stop ends the node.
func (n *Node) Stop() {
	n.cmd.Process.Kill()
	<-n.done
	if vt.Tapping() {
		filepath.Walk(n.dir, func(p string, i os.FileInfo, err error) error {
			if err == nil && i.Mode().IsRegular() {
				b, _ := os.ReadFile(p)
				vt.Look("a file of the node", b)
			}
			return nil
		})
	}
	os.RemoveAll(n.dir)
}

// Dead tells whether the process has ended.
func (n *Node) Dead() bool {
	select {
	case <-n.done:
		return true
	default:
		return false
	}
}

// Alive fails the check if the process has ended.
func (n *Node) Alive(t T) {
	select {
	case <-n.done:
		t.Fatalf("the %s process ended (%v): %s", n.Kind, n.werr, n.Tail())
	default:
	}
}

// Output is what the node wrote last to its standard output and error.
func (n *Node) Output() string { return n.log.String() }

// Dir is the node's working directory.
func (n *Node) Dir() string { return n.dir }

// Tail is the end of the node's output, from the panic if there is one.
func (n *Node) Tail() string {
	s := n.log.String()
	for _, k := range []string{"panic:", "fatal error:"} {
		if i := strings.Index(s, k); i >= 0 {
			s = s[i:]
			if len(s) > 3000 {
				s = s[:3000]
			}
			return s
		}
	}
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

var httpc = &http.Client{Timeout: vt.Hang, Transport: &http.Transport{MaxIdleConnsPerHost: 32}}

// Raw posts bytes to one of the node's REST ports.
func (n *Node) Raw(t T, port string, body []byte) (int, []byte) {
	var last error
	for try := 0; try < 3; try++ {
		r, err := httpc.Post("http://127.0.0.1:"+port+"/v1", "application/json", bytes.NewReader(body))
		if err != nil {
			time.Sleep(50 * time.Millisecond)
			n.Alive(t)
			last = err
			if e, ok := err.(net.Error); ok && e.Timeout() {
				break
			}
			if strings.Contains(err.Error(), "EOF") || strings.Contains(err.Error(), "reset") {
				// a handler that panics takes its connection with it
				break
			}
			continue
		}
		b, err := io.ReadAll(r.Body)
		r.Body.Close()
		if err != nil {
			last = err
			break
		}
		vt.Look("an answer of the node", b)
		return r.StatusCode, b
	}
	t.Fatalf("the %s gives no answer: %v\n%s", n.Kind, last, n.Tail())
	return 0, nil
}

// Post sends a message to a REST port. The answer is nil if there is no message in it.
func (n *Node) Post(t T, port string, m *fcrmessages.FCRMessage) (*fcrmessages.FCRMessage, int) {
	b, err := json.Marshal(m)
	if err != nil {
		t.Fatalf("cannot encode the request: %v", err)
	}
	st, rb := n.Raw(t, port, b)
	if st != 200 || len(bytes.TrimSpace(rb)) == 0 {
		return nil, st
	}
	var r fcrmessages.FCRMessage
	if err := json.Unmarshal(rb, &r); err != nil {
		t.Fatalf("the %s's answer is no message: %v: %s", n.Kind, err, cut(rb))
	}
	return &r, st
}

// Signed sends a message and wants an answer signed by the node.
func (n *Node) Signed(t T, port string, m *fcrmessages.FCRMessage, err error) *fcrmessages.FCRMessage {
	if err != nil {
		t.Fatalf("cannot make the request: %v", err)
	}
	r, st := n.Post(t, port, m)
	if r == nil {
		t.Fatalf("request %d is not answered: status %d\n%s", m.GetMessageType(), st, n.Tail())
	}
	n.Mine(t, r)
	return r
}

// Mine wants a message to be signed by the node.
func (n *Node) Mine(t T, r *fcrmessages.FCRMessage) {
	if err := r.Verify(vt.Pub(n.Key)); err != nil {
		t.Fatalf("the answer of type %d is not signed by the %s: %v", r.GetMessageType(), n.Kind, err)
	}
}

// Token is what nodes are given to authenticate themselves to the chain.
const Token = "chain-token-8c1f03aa97d24e6b"

// Secrets are those of a node.
func Secrets(key *fcrcrypto.KeyPair, w *vtpay.Wallet) {
	if !vt.Tapping() {
		return
	}
	vt.Secret("the signing key", RawKey(key))
	vt.SecretText("the chain's token", Token)
	if w != nil {
		vt.Secret("the wallet's key", w.Raw)
	}
}

// RawKey is a private key as 32 bytes.
func RawKey(key *fcrcrypto.KeyPair) []byte {
	b, err := hex.DecodeString(key.EncodePrivateKey())
	if err != nil || len(b) < 32 {
		vt.Infra("the private key is encoded as something unknown: %v", err)
	}
	return b[len(b)-32:]
}

// Init gives a node its identity, and a wallet if one is given.
func (n *Node) Init(t T, id *nodeid.NodeID, key *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion, w *vtpay.Wallet, l *vtpay.Lotus) {
	n.ID, n.Key, n.Ver, n.Wallet = id, key, ver, w
	Secrets(key, w)
	var m *fcrmessages.FCRMessage
	var err error
	switch {
	case n.Kind == "gateway" && w != nil:
		m, err = fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(id, key, ver, w.Priv, l.URL(), Token)
	case n.Kind == "gateway":
		m, err = fcrmessages.EncodeGatewayAdminInitialiseKeyRequest(id, key, ver)
	case w != nil:
		m, err = fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2(id, key, ver, w.Priv, l.URL(), Token)
	default:
		m, err = fcrmessages.EncodeProviderAdminInitialiseKeyRequest(id, key, ver)
	}
	r := n.Signed(t, n.Admin, m, err)
	var ok bool
	if n.Kind == "gateway" {
		ok, err = fcrmessages.DecodeGatewayAdminInitialiseKeyResponse(r)
	} else {
		ok, err = fcrmessages.DecodeProviderAdminInitialiseKeyResponse(r)
	}
	if err != nil || !ok {
		t.Fatalf("the %s is not initialised: %v %v", n.Kind, ok, err)
	}
	n.Refresh(t) // its first look at the register may not be over yet
}

// Refresh makes the node read the register.
func (n *Node) Refresh(t T) {
	var m *fcrmessages.FCRMessage
	var err error
	if n.Kind == "gateway" {
		m, err = fcrmessages.EncodeGatewayAdminForceRefreshRequest(true)
	} else {
		m, err = fcrmessages.EncodeProviderAdminForceRefreshRequest(true)
	}
	n.Signed(t, n.Admin, m, err)
}

// Gateway is the register entry of a running gateway.
func (n *Node) Gateway() register.GatewayRegister {
	g := register.GatewayRegister{NodeID: n.ID.ToString(), RootSigningKey: vt.PubHex(n.Key), SigningKey: vt.PubHex(n.Key), RegionCode: "AU",
		NetworkInfoGateway: "127.0.0.1:" + n.Peer, NetworkInfoProvider: "127.0.0.1:" + n.Prov, NetworkInfoClient: "127.0.0.1:" + n.Client, NetworkInfoAdmin: "127.0.0.1:" + n.Admin, Address: "f0"}
	if n.Wallet != nil {
		g.Address = n.Wallet.Addr.String()
	}
	return g
}

// Provider is the register entry of a running provider.
func (n *Node) Provider() register.ProviderRegister {
	p := register.ProviderRegister{NodeID: n.ID.ToString(), RootSigningKey: vt.PubHex(n.Key), SigningKey: vt.PubHex(n.Key), RegionCode: "AU",
		NetworkInfoGateway: "127.0.0.1:" + n.Peer, NetworkInfoClient: "127.0.0.1:" + n.Client, NetworkInfoAdmin: "127.0.0.1:" + n.Admin, Address: "f0"}
	if n.Wallet != nil {
		p.Address = n.Wallet.Addr.String()
	}
	return p
}

func cut(b []byte) string {
	if len(b) > 300 {
		return string(b[:300]) + "..."
	}
	return string(b)
}

// Frame is a message as sent between nodes.
func Frame(m *fcrmessages.FCRMessage) []byte {
	b, err := m.FCRMsgToBytes()
	if err != nil {
		panic(err)
	}
	return append(binary.BigEndian.AppendUint32(nil, uint32(len(b))), b...)
}

// ReadFrame reads a message as sent between nodes.
func ReadFrame(r io.Reader) (*fcrmessages.FCRMessage, error) {
	h := make([]byte, 4)
	if _, err := io.ReadFull(r, h); err != nil {
		return nil, err
	}
	var b bytes.Buffer
	if _, err := io.CopyN(&b, r, int64(binary.BigEndian.Uint32(h))); err != nil {
		return nil, err
	}
	vt.Look("a message of the node", b.Bytes())
	return fcrmessages.FCRMsgFromBytes(b.Bytes())
}

// Conn is a connection to a node's access point for other nodes.
type Conn struct {
	c net.Conn
	n *Node
}

// Dial connects to a node's access point.
func (n *Node) Dial(t T, port string) *Conn {
	c, err := net.DialTimeout("tcp", "127.0.0.1:"+port, vt.Hang)
	if err != nil {
		n.Alive(t)
		t.Fatalf("the %s does not accept connections: %v", n.Kind, err)
	}
	return &Conn{c, n}
}

// Close the connection.
func (c *Conn) Close() { c.c.Close() }

// Send a message.
func (c *Conn) Send(t T, m *fcrmessages.FCRMessage) {
	c.c.SetWriteDeadline(time.Now().Add(vt.Hang))
	if _, err := c.c.Write(Frame(m)); err != nil {
		c.n.Alive(t)
	}
}

// Read the answer; nil if the node closed the connection.
func (c *Conn) Read(t T) *fcrmessages.FCRMessage {
	c.c.SetReadDeadline(time.Now().Add(vt.Hang))
	m, err := ReadFrame(c.c)
	if err != nil {
		if e, ok := err.(net.Error); ok && e.Timeout() {
			c.n.Alive(t)
			t.Fatalf("the %s gives no answer\n%s", c.n.Kind, c.n.Tail())
		}
		time.Sleep(20 * time.Millisecond)
		c.n.Alive(t)
		return nil
	}
	return m
}

// Ask sends one message on a connection of its own and returns the answer; nil if there is none.
func (n *Node) Ask(t T, port string, m *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
	c := n.Dial(t, port)
	defer c.Close()
	c.Send(t, m)
	return c.Read(t)
}

// IsInvalid tells whether an answer is a refusal.
func IsInvalid(m *fcrmessages.FCRMessage) bool {
	return m == nil || m.GetMessageType() == fcrmessages.InvalidMessageResponseType
}

// WithSignature is a message with another signature.
func WithSignature(m *fcrmessages.FCRMessage, sig string) *fcrmessages.FCRMessage {
	b, err := m.FCRMsgToBytes()
	if err != nil {
		panic(err)
	}
	var v map[string]interface{}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	v["message_signature"] = sig
	b, _ = json.Marshal(v)
	r, err := fcrmessages.FCRMsgFromBytes(b)
	if err != nil {
		panic(err)
	}
	return r
}

// Write raw bytes.
func (c *Conn) Write(b []byte) {
	c.c.SetWriteDeadline(time.Now().Add(vt.Hang))
	c.c.Write(b)
}

// Peek reads a message the node sends within a while; nil if there is none.
func (c *Conn) Peek(d time.Duration) *fcrmessages.FCRMessage {
	c.c.SetReadDeadline(time.Now().Add(d))
	m, err := ReadFrame(c.c)
	if err != nil {
		return nil
	}
	return m
}
