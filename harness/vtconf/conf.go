// Package vtconf generates node configurations together with the settings they stand for.
package vtconf

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Conf is a generated configuration: its variables, and the value each named setting has to have.
type Conf struct {
	Vars map[string]string
	Want map[string]string
}

// Spec of a kind of node: which variable each text setting comes from.
type Spec struct {
	Text      map[string]string // setting -> variable
	AfterHost map[string]string // setting -> variable holding what follows the node's address and a colon
	SigAlg    string            // setting taking a number 0-255, if any
}

func text() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"9010", "0123", "http://register:9020", "provider:9030", "US", "debug", "/var/log/x", "f0121345", "0xABCDE123456789", "true", "1e3", "a b", "k=v", "%d%s", "ü", ",", "1,2", "null", "[]", "{}", "1_000"}),
		rapid.StringMatching(`[A-Za-z0-9:/._-]{1,70}`),
	)
}

// amount draws a price as an operator writes it, and its value.
func amount(rt *rapid.T, def int64) (string, string) {
	digits := ""
	switch rapid.IntRange(0, 4).Draw(rt, "amount") {
	case 0, 1: // any number of digits
		digits = rapid.StringMatching(`[1-9][0-9]{0,40}`).Draw(rt, "digits")
	case 2:
		digits = rapid.SampledFrom([]string{"0", "1", "9223372036854775807", "9223372036854775808", "18446744073709551616", "1000000000000000", "100000000000000000"}).Draw(rt, "edge")
	default: // nothing usable
		return rapid.SampledFrom([]string{"", "abc", "0.001", "1.5", "1e18", "12abc", "7 000", "1,000", "-5", "-1000000000000000", "--5", "0x", "1__0", "_1", "1_", "FIL 1", "5 attofil", "1;2"}).Draw(rt, "malformed"), big.NewInt(def).String()
	}
	text := digits
	if rapid.Bool().Draw(rt, "grouped") && len(digits) > 3 { // digits in groups, as in the example files
		var parts []string
		for len(text) > 3 {
			parts = append([]string{text[len(text)-3:]}, parts...)
			text = text[:len(text)-3]
		}
		text = strings.Join(append([]string{text}, parts...), "_")
	}
	return text, digits
}

// duration draws a duration as an operator writes it, and its value.
func duration(rt *rapid.T, def time.Duration) (string, string) {
	if rapid.IntRange(0, 2).Draw(rt, "duration") == 0 {
		return rapid.SampledFrom([]string{"", "5", "abc", "5 s", "s", "1h2", "-5s", "-100ms", "0", "0s", "1d", "5sec", "1e3s"}).Draw(rt, "malformed"), def.String()
	}
	d := time.Duration(rapid.Int64Range(1, int64(1000*time.Hour)).Draw(rt, "ns"))
	switch rapid.IntRange(0, 3).Draw(rt, "unit") {
	case 0:
		return d.String(), d.String()
	case 1:
		d = d/time.Millisecond*time.Millisecond + time.Millisecond
		return fmt.Sprint(int64(d/time.Millisecond), "ms"), d.String()
	case 2:
		d = d/time.Second*time.Second + time.Second
		return fmt.Sprint(int64(d/time.Second), "s"), d.String()
	default:
		return fmt.Sprint(int64(d), "ns"), d.String()
	}
}

// Draw generates a configuration. Variables are left out at random.
func Draw(rt *rapid.T, s Spec, host string) Conf {
	c := Conf{Vars: map[string]string{}, Want: map[string]string{}}
	set := func(k, v string) {
		if v != "" {
			c.Vars[k] = v
		}
	}
	vals := map[string]string{}
	val := func(k string) string {
		if v, ok := vals[k]; ok {
			return v
		}
		v := ""
		if rapid.IntRange(0, 5).Draw(rt, k+" given") > 0 {
			v = text().Draw(rt, k)
		}
		vals[k] = v
		set(k, v)
		return v
	}
	for _, f := range keys(s.Text) {
		c.Want[f] = val(s.Text[f])
	}
	for _, f := range keys(s.AfterHost) {
		c.Want[f] = host + ":" + val(s.AfterHost[f])
	}
	for _, p := range [][2]string{{"LogMaxBackups", "LOG_MAX_BACKUPS"}, {"LogMaxAge", "LOG_MAX_AGE"}, {"LogMaxSize", "LOG_MAX_SIZE"}} {
		n := rapid.IntRange(0, 1<<20).Draw(rt, p[1])
		set(p[1], fmt.Sprint(n))
		c.Want[p[0]] = fmt.Sprint(n)
	}
	b := rapid.Bool().Draw(rt, "LOG_COMPRESS")
	set("LOG_COMPRESS", fmt.Sprint(b))
	c.Want["LogCompress"] = fmt.Sprint(b)
	if s.SigAlg != "" {
		n := rapid.IntRange(0, 255).Draw(rt, s.SigAlg)
		set(s.SigAlg, fmt.Sprint(n))
		c.Want["ProviderSigAlg"] = fmt.Sprint(n)
	}
	for _, p := range []struct {
		f, k string
		def  time.Duration
	}{{"RegisterRefreshDuration", "REGISTER_REFRESH_DURATION", 5 * time.Second}, {"TCPInactivityTimeout", "TCP_INACTIVITY_TIMEOUT", 100 * time.Millisecond}, {"TCPLongInactivityTimeout", "TCP_LONG_INACTIVITY_TIMEOUT", 5 * time.Second}} {
		v, w := duration(rt, p.def)
		set(p.k, v)
		c.Want[p.f] = w
	}
	for _, p := range []struct {
		f, k string
		def  int64
	}{{"SearchPrice", "SEARCH_PRICE", 1e15}, {"OfferPrice", "OFFER_PRICE", 1e15}, {"TopupAmount", "TOPUP_AMOUNT", 1e17}} {
		v, w := amount(rt, p.def)
		set(p.k, v)
		c.Want[p.f] = w
	}
	return c
}

func keys(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Fields are the settings as text.
func Fields(settings interface{}) map[string]string {
	r := map[string]string{}
	v := reflect.ValueOf(settings)
	for i := 0; i < v.NumField(); i++ {
		r[v.Type().Field(i).Name] = fmt.Sprint(v.Field(i).Interface())
	}
	return r
}

// T is what a check needs of rapid.T.
type T interface {
	Fatalf(format string, args ...interface{})
}

// Check compares the settings with the wanted ones.
func (c Conf) Check(rt T, got map[string]string) {
	for _, f := range keys(c.Want) {
		if got[f] != c.Want[f] {
			rt.Fatalf("%s is %q, want %q, with the configuration %s", f, got[f], c.Want[f], c.Text())
		}
	}
}

// Text is the configuration as an environment file.
func (c Conf) Text() string {
	var l []string
	for _, k := range keys(c.Vars) {
		l = append(l, k+"="+c.Vars[k])
	}
	return strings.Join(l, " ")
}

// Start has a fresh process of this test program build the configuration, with the variables in its environment and
// the given command line, and returns the settings it came to. TestMain has to call Child.
func (c Conf) Start(rt T, args ...string) map[string]string {
	cmd := exec.Command(os.Args[0])
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + os.TempDir(), "VERIF_CONF_CHILD=" + strings.Join(append([]string{"node"}, args...), "\n")}
	for _, k := range keys(c.Vars) {
		cmd.Env = append(cmd.Env, k+"="+c.Vars[k])
	}
	out, err := cmd.Output()
	i := strings.Index(string(out), "SETTINGS ")
	if err != nil || i < 0 {
		rt.Fatalf("the node does not get past its configuration (%v): %.500s\nwith %s, command line %q", err, out, c.Text(), args)
	}
	r := map[string]string{}
	if err := json.Unmarshal([]byte(strings.SplitN(string(out[i+9:]), "\n", 2)[0]), &r); err != nil {
		rt.Fatalf("settings %s: %v", out, err)
	}
	return r
}

// Child prints the settings and ends the process when it was started by Start.
func Child(settings func() interface{}) {
	a := os.Getenv("VERIF_CONF_CHILD")
	if a == "" {
		return
	}
	os.Unsetenv("VERIF_CONF_CHILD")
	os.Args = strings.Split(a, "\n")
	b, err := json.Marshal(Fields(settings()))
	if err != nil {
		panic(err)
	}
	fmt.Println("SETTINGS " + string(b))
	os.Exit(0)
}

// Host draws where a node takes its address from: the command line, else the environment, else the loopback address.
func Host(rt *rapid.T) (env string, args []string, host string) {
	host = "127.0.0.1"
	gen := rapid.StringMatching(`[a-z0-9.]{1,20}`)
	if rapid.Bool().Draw(rt, "IP in environment") {
		env = gen.Draw(rt, "IP")
		host = env
	}
	if rapid.Bool().Draw(rt, "--ip") {
		host = gen.Draw(rt, "ip")
		if rapid.Bool().Draw(rt, "one word") {
			args = append(args, "--ip="+host)
		} else {
			args = append(args, "--ip", host)
		}
	}
	if rapid.Bool().Draw(rt, "--host") {
		args = append(args, "--host="+gen.Draw(rt, "host"))
	}
	return
}
