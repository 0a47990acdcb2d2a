package log

import (
	"bufio"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/spf13/viper"
	"pgregory.net/rapid"
)

// rank orders the levels; a level that is not known stands for info.
var rank = map[string]int{"trace": 0, "debug": 1, "info": 2, "warn": 3, "error": 4, "fatal": 5, "panic": 6, "disabled": 7, "none": 7}

// levelText draws a level as an operator may spell it, and what it stands for ("" for nothing known).
func levelText(rt *rapid.T, label string) (text, stands string) {
	stands = rapid.SampledFrom([]string{"trace", "debug", "info", "warn", "error", "fatal", "panic", "disabled", "none", ""}).Draw(rt, label)
	switch {
	case stands == "":
		return rapid.SampledFrom([]string{"", "verbose", "infos", "warn ing", "9x", "off?", "{}", "level", "in fo", "deb"}).Draw(rt, label+" unknown"), ""
	case rapid.IntRange(0, 3).Draw(rt, label+" case") == 0 || stands == "none":
		return strings.ToUpper(stands), stands
	case rapid.IntRange(0, 6).Draw(rt, label+" title") == 0:
		return strings.ToUpper(stands[:1]) + stands[1:], stands
	}
	return stands, stands
}

// line is one message expected in a log.
type line struct {
	level, service, text string
	unix                 bool
	from, to             time.Time
}

// target is one place that is logged to.
type target struct {
	file    *os.File // standard output
	root    string   // the scratch directory
	dir     string   // or a directory
	name    string
	max     int // MB per file
	zip     bool
	broken  bool // cannot be written to
	backups int  // how many are kept, 0 for all
	want    []line
}

// open draws a target and points conf at it. Standard output is a file while this test runs.
func open(rt *rapid.T, conf *viper.Viper, rotating bool) *target {
	if !rotating && rapid.Bool().Draw(rt, "to standard output") {
		f, err := os.CreateTemp("", "l01")
		if err != nil {
			panic(err)
		}
		os.Stdout = f
		if s := rapid.SampledFrom([]string{"STDOUT", "", "stdout", "file", "other"}).Draw(rt, "target"); s != "" {
			conf.Set("LOG_TARGET", s)
		}
		conf.Set("LOG_DIR", f.Name()+".dir") // not used
		conf.Set("LOG_FILE", "unused.log")
		return &target{file: f, name: f.Name()}
	}
	dir, err := os.MkdirTemp("", "l01")
	if err != nil {
		panic(err)
	}
	t := &target{root: dir, name: rapid.SampledFrom([]string{"node.log", "log", "a b.log", "x.y.log"}).Draw(rt, "file")}
	logs := filepath.Join(dir, rapid.SampledFrom([]string{"logs", "a/b/c", "deep/er", "."}).Draw(rt, "directory"))
	if !rotating && rapid.IntRange(0, 6).Draw(rt, "unusable directory") == 0 {
		os.WriteFile(filepath.Join(dir, "plain"), nil, 0600)
		logs, t.broken = filepath.Join(dir, "plain", "logs"), true
	}
	t.dir = logs
	conf.Set("LOG_TARGET", "FILE")
	conf.Set("LOG_DIR", logs)
	conf.Set("LOG_FILE", t.name)
	if rotating {
		t.max = rapid.IntRange(1, 2).Draw(rt, "size")
		conf.Set("LOG_MAX_SIZE", t.max)
		conf.Set("LOG_MAX_AGE", rapid.IntRange(0, 3).Draw(rt, "age"))
		t.backups = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "backups")
		conf.Set("LOG_MAX_BACKUPS", t.backups)
		t.zip = rapid.Bool().Draw(rt, "compress")
		conf.Set("LOG_COMPRESS", t.zip)
	} else if rapid.Bool().Draw(rt, "sizes") {
		t.max = rapid.IntRange(1, 500).Draw(rt, "size")
		conf.Set("LOG_MAX_SIZE", t.max)
		conf.Set("LOG_MAX_AGE", rapid.IntRange(0, 40).Draw(rt, "age"))
		conf.Set("LOG_MAX_BACKUPS", rapid.IntRange(0, 9).Draw(rt, "backups"))
		conf.Set("LOG_COMPRESS", rapid.Bool().Draw(rt, "compress"))
	}
	return t
}

// files are those of the log, oldest first.
func (t *target) files() []string {
	if t.file != nil {
		return []string{t.name}
	}
	es, _ := os.ReadDir(t.dir)
	names := []string{}
	current := false
	for _, e := range es {
		if e.Name() == t.name {
			current = true
		} else if e.Name() != "plain" && !e.IsDir() {
			names = append(names, filepath.Join(t.dir, e.Name()))
		}
	}
	sort.Strings(names)
	if current {
		names = append(names, filepath.Join(t.dir, t.name))
	}
	return names
}

// settle waits until old files are compressed and removed as configured.
func (t *target) settle(rt *rapid.T) {
	for start := time.Now(); ; time.Sleep(5 * time.Millisecond) {
		fs, plain := t.files(), 0
		for _, f := range fs {
			if !strings.HasSuffix(f, ".gz") {
				plain++
			}
		}
		switch {
		case t.backups > 0 && len(fs) > t.backups+1, t.zip && plain > 1:
		default:
			return
		}
		if time.Since(start) > 30*time.Second {
			rt.Fatalf("30 s after the last message there are the files %v, with %d backups to be kept, compressed: %v", fs, t.backups, t.zip)
		}
	}
}

func gz(fs []string) (r []string) {
	for _, f := range fs {
		if strings.HasSuffix(f, ".gz") {
			r = append(r, f)
		}
	}
	return
}

type entry struct {
	Level, Service, Message string
	Time                    json.RawMessage
}

// read returns the entries of the log, oldest first.
func (t *target) read(rt *rapid.T) []entry {
	var r []entry
	for _, name := range t.files() {
		f, err := os.Open(name)
		if err != nil {
			rt.Fatalf("the log %s: %v", name, err)
		}
		var in io.Reader = f
		if strings.HasSuffix(name, ".gz") {
			if in, err = gzip.NewReader(f); err != nil {
				rt.Fatalf("the compressed log %s: %v", name, err)
			}
		} else if s, _ := f.Stat(); t.max > 0 && s.Size() > int64(t.max)<<20 {
			rt.Fatalf("the log file %s has %d bytes, with a limit of %d MB", name, s.Size(), t.max)
		}
		b := bufio.NewReader(in)
		for {
			l, err := b.ReadString('\n')
			if l == "" && err == io.EOF {
				break
			}
			if err != nil {
				rt.Fatalf("the log %s ends in %.200q: %v", name, l, err)
			}
			var fields map[string]json.RawMessage
			if err := json.Unmarshal([]byte(l), &fields); err != nil {
				rt.Fatalf("the log line %.300q: %v", l, err)
			}
			e := entry{Time: fields["time"]}
			json.Unmarshal(fields["level"], &e.Level)
			json.Unmarshal(fields["service"], &e.Service)
			json.Unmarshal(fields["message"], &e.Message)
			if strings.HasPrefix(strings.TrimPrefix(e.Message, "Error: "), mark) { // the logger may have something to say of its own
				r = append(r, e)
			}
		}
		f.Close()
	}
	return r
}

const mark = "[l01]"

func (t *target) check(rt *rapid.T) {
	rt.Helper()
	if t.broken {
		return
	}
	t.settle(rt)
	got, want := t.read(rt), t.want
	if t.backups > 0 && len(got) < len(want) {
		if len(t.files()) < t.backups+1 {
			rt.Fatalf("%d of %d messages are left, and only the files %v", len(got), len(want), t.files())
		}
		want = want[len(want)-len(got):]
	}
	if len(got) != len(want) {
		rt.Fatalf("the log has %d messages, %d were logged at or above its level; first difference: %s", len(got), len(want), diff(got, want))
	}
	for i, w := range want {
		g := got[i]
		if g.Message != w.text || g.Level != w.level || g.Service != w.service {
			rt.Fatalf("entry %d of the log is %s %q %.200q, logged was %s %q %.200q", i, g.Level, g.Service, g.Message, w.level, w.service, w.text)
		}
		var at time.Time
		if w.unix {
			var n int64
			if json.Unmarshal(g.Time, &n) != nil {
				rt.Fatalf("the time of an entry is %s, with Unix times configured", g.Time)
			}
			at = time.Unix(n, 0)
		} else {
			var s string
			json.Unmarshal(g.Time, &s)
			var err error
			if at, err = time.Parse(time.RFC3339, s); err != nil {
				rt.Fatalf("the time of an entry is %s, with RFC 3339 times configured", g.Time)
			}
		}
		if at.Before(w.from.Add(-time.Second)) || at.After(w.to) {
			rt.Fatalf("the time of an entry is %v, it was logged from %v to %v", at, w.from, w.to)
		}
	}
}

func diff(got []entry, want []line) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(want):
			return fmt.Sprintf("%.200q is in the log", got[i].Message)
		case i >= len(got) || got[i].Message != want[i].text:
			return fmt.Sprintf("%s %.200q is missing", want[i].level, want[i].text)
		}
	}
	return "none"
}

func (t *target) remove() {
	if t.file != nil {
		t.file.Close()
		os.Remove(t.name)
	} else {
		os.RemoveAll(t.root)
	}
}

var seq int

// message draws a format with its arguments, and the text they make.
func message(rt *rapid.T) (format string, args []interface{}, text string) {
	seq++
	format = fmt.Sprintf("%s%d:", mark, seq)
	switch rapid.IntRange(0, 5).Draw(rt, "form") {
	case 0, 1:
		format += strings.ReplaceAll(vt.Text().Draw(rt, "text"), "%", "%%")
	case 2:
		format += "%s"
		args = append(args, string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "bytes")))
	case 3:
		format += "%d of %v"
		args = append(args, rapid.Int64().Draw(rt, "number"), errors.New(vt.Text().Draw(rt, "error")))
	case 4:
		format += "%s \"%s\"\n%s\t{}"
		args = append(args, vt.Text().Draw(rt, "a"), vt.Text().Draw(rt, "b"), strings.Repeat("x", rapid.IntRange(0, 3000).Draw(rt, "long")))
	default:
		format += "100%%"
	}
	return format, args, string([]rune(fmt.Sprintf(format, args...)))
}

var emitters = map[string]func(string, ...interface{}){"trace": logging.Trace, "debug": logging.Debug, "info": logging.Info, "warn": logging.Warn, "error": logging.Error}
var plain = []string{"trace", "debug", "info", "warn", "error"}

// world is the logger and what it is known to be set to.
type world struct {
	t       *target
	service string
	level   int
	unix    bool
	targets []*target
}

// init draws a configuration and starts logging with it.
func (w *world) init(rt *rapid.T, c *vt.Case, rotating bool) {
	conf := viper.New()
	text, stands := levelText(rt, "level")
	if rotating {
		text, stands = "debug", "debug"
	}
	service := vt.Text().Draw(rt, "service")
	format := rapid.SampledFrom([]string{"RFC3339", "Unix", "", "other"}).Draw(rt, "time format")
	conf.Set("LOG_TIME_FORMAT", format)
	if text != "" {
		conf.Set("LOG_LEVEL", text)
	}
	conf.Set("LOG_SERVICE_NAME", service)
	w.t = open(rt, conf, rotating)
	w.targets = append(w.targets, w.t)
	w.level, w.service = 2, string([]rune(service))
	if stands != "" {
		w.level = rank[stands]
	}
	to := "standard output"
	if w.t.dir != "" {
		to = "a file"
	}
	c.Addf("init(%q, %s, %q, %q)", text, to, service, format)
	if w.t.file != nil && rapid.Bool().Draw(rt, "Init1") {
		logging.Init1(text, "STDOUT", service) // which leaves the time format as it is
	} else {
		logging.Init(conf)
		if format == "Unix" || format == "RFC3339" {
			w.unix = format == "Unix"
		}
	}
}

func (w *world) expect(level, text string, from time.Time) {
	if rank[level] >= w.level {
		w.t.want = append(w.t.want, line{level, w.service, text, w.unix, from, time.Now()})
	}
}

// panics runs fn, which has to panic with text.
func panics(rt *rapid.T, text string, fn func()) {
	rt.Helper()
	done := false
	var p interface{}
	func() {
		defer func() { p = recover() }()
		fn()
		done = true
	}()
	if done {
		rt.Fatalf("execution went on after a panic was logged")
	}
	if s := fmt.Sprint(p); string([]rune(s)) != text {
		rt.Fatalf("panicked with %.200q instead of %.200q", s, text)
	}
}

// What is logged at or above the level, and only that, is in the log: once, whole, in order, under the service's name.
func TestL01_Histories(t *testing.T) {
	vt.Check(t, 120, func(rt *rapid.T, c *vt.Case) {
		std := os.Stdout
		w := &world{}
		defer func() {
			logging.Init1("disabled", "STDOUT", "l01")
			os.Stdout = std
			for _, t := range w.targets {
				t.remove()
			}
		}()
		resetTime()
		w.init(rt, c, false)
		logged, below := 0, 0
		for i, n := 0, rapid.IntRange(1, 14).Draw(rt, "steps"); i < n; i++ {
			switch k := rapid.IntRange(0, 13).Draw(rt, "step"); {
			case k < 7:
				level := rapid.SampledFrom(plain).Draw(rt, "at")
				format, args, text := message(rt)
				from := time.Now()
				if level == "error" && rapid.Bool().Draw(rt, "Error1") {
					logging.Error1(errors.New(fmt.Sprintf(format, args...)))
					text = "Error: " + text
				} else {
					emitters[level](format, args...)
				}
				w.expect(level, text, from)
				if rank[level] >= w.level {
					logged++
				} else {
					below++
				}
				c.Addf("%s(%.60q)", level, text)
			case k < 9:
				text, stands := levelText(rt, "new level")
				logging.SetLogLevel(text)
				if stands != "" {
					w.level = rank[stands]
				} // otherwise the level stays
				c.Addf("level %q", text)
			case k == 9:
				w.t.check(rt)
				w.init(rt, c, false)
			case k == 10:
				if got := logging.InfoEnabled(); got != (w.level <= rank["info"]) {
					rt.Fatalf("info is said to be enabled: %v; the level is %d", got, w.level)
				}
			case k == 11:
				format, args, text := message(rt)
				from := time.Now()
				fn := logging.Panic
				if rapid.Bool().Draw(rt, "ErrorAndPanic") {
					fn = logging.ErrorAndPanic
				}
				panics(rt, text, func() { fn(format, args...) })
				w.expect("panic", text, from)
				c.Addf("panic(%.60q)", text)
				c.Class("panic")
			default:
				c.Addf("burst")
				w.burst(rt)
			}
		}
		for _, t := range w.targets {
			t.check(rt)
		}
		if logged > 0 || below > 0 {
			c.NonTrivial("messages logged and held back")
		}
	})
}

// burst logs from several threads at once; each one's messages are there, in its order.
func (w *world) burst(rt *rapid.T) {
	w.t.check(rt)
	threads, each := rapid.IntRange(2, 6).Draw(rt, "threads"), rapid.IntRange(1, 30).Draw(rt, "each")
	long := rapid.IntRange(0, 600).Draw(rt, "length")
	from := time.Now()
	var wg sync.WaitGroup
	want := map[string][]string{}
	seq++
	for th := 0; th < threads; th++ {
		level := plain[(th+seq)%len(plain)]
		id := fmt.Sprintf("%s%d thread %d ", mark, seq, th)
		for i := 0; i < each; i++ {
			if rank[level] >= w.level {
				want[id] = append(want[id], fmt.Sprintf("%s%d %s", id, i, strings.Repeat("y", long)))
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < each; i++ {
				emitters[level]("%s%d %s", id, i, strings.Repeat("y", long))
			}
		}()
	}
	wg.Wait()
	if w.t.broken {
		return
	}
	to := time.Now()
	got := w.t.read(rt)
	if len(got) < len(w.t.want) {
		rt.Fatalf("earlier messages are gone from the log")
	}
	have := map[string][]string{}
	for _, g := range got[len(w.t.want):] {
		if i := strings.Index(g.Message, " thread "); i > 0 {
			id := g.Message[:i+len(" thread ")+2]
			have[id] = append(have[id], g.Message)
		} else {
			rt.Fatalf("%.200q is in the log a second time", g.Message)
		}
		w.t.want = append(w.t.want, line{g.Level, w.service, g.Message, w.unix, from, to})
	}
	for id, l := range want {
		if strings.Join(l, "\n") != strings.Join(have[id], "\n") {
			rt.Fatalf("of %d messages of one thread, the log has %d, or in another order", len(l), len(have[id]))
		}
	}
	for id := range have {
		if len(want[id]) == 0 {
			rt.Fatalf("the log has messages below its level")
		}
	}
}

// resetTime makes RFC 3339 the time format, as at the start of a process.
func resetTime() {
	conf := viper.New()
	conf.Set("LOG_TIME_FORMAT", "RFC3339")
	conf.Set("LOG_LEVEL", "disabled")
	logging.Init(conf)
}

// A log that fills several files loses nothing but the backups beyond those to be kept.
func TestL01_Rotation(t *testing.T) {
	vt.Check(t, 6, func(rt *rapid.T, c *vt.Case) {
		w := &world{}
		defer logging.Init1("disabled", "STDOUT", "l01")
		resetTime()
		w.init(rt, c, true)
		defer func() { w.t.remove() }()
		size := 0
		total := rapid.IntRange(1, 5).Draw(rt, "MB") << 20
		for size < total {
			n := rapid.IntRange(1000, 400000).Draw(rt, "length")
			seq++
			text := fmt.Sprintf("%s%d:%s", mark, seq, strings.Repeat("z", n))
			level := plain[1+seq%4]
			from := time.Now()
			emitters[level]("%s", text)
			w.expect(level, text, from)
			size += n
			time.Sleep(2 * time.Millisecond) // backups are named by the millisecond
		}
		c.Addf("%d MB in files of %d MB, %d backups, compressed %v", total>>20, w.t.max, w.t.backups, w.t.zip)
		w.t.check(rt)
		if total > w.t.max<<20 {
			if fs := w.t.files(); len(fs) < 2 {
				rt.Fatalf("%d bytes were logged to files of %d MB, there are only %v", size, w.t.max, fs)
			} else if !w.t.zip && len(gz(fs)) > 0 {
				rt.Fatalf("old logs are compressed without being asked for: %v", fs)
			}
			c.NonTrivial("rotated")
		}
	})
}

// What cannot be recovered from ends the process, whatever the level is.
func TestL01_Fatal(t *testing.T) {
	if cfg := os.Getenv("L01_FATAL"); cfg != "" {
		var a []string
		json.Unmarshal([]byte(cfg), &a)
		logging.Init1(a[0], "STDOUT", "child")
		logging.Fatal(mark+"%s", a[1])
		fmt.Println("went on")
		os.Exit(0)
	}
	vt.Check(t, 12, func(rt *rapid.T, c *vt.Case) {
		text, stands := levelText(rt, "level")
		msg := strings.ToValidUTF8(vt.Text().Draw(rt, "text"), "?")
		b, _ := json.Marshal([]string{text, msg})
		cmd := exec.Command(os.Args[0], "-test.run=^TestL01_Fatal$")
		cmd.Env = append(os.Environ(), "L01_FATAL="+string(b))
		cmd.Env = append(cmd.Env, "VERIF_STATS=")
		out, err := cmd.Output()
		var ex *exec.ExitError
		if err == nil || !errors.As(err, &ex) || strings.Contains(string(out), "went on") {
			rt.Fatalf("execution went on after a fatal error at level %q: %v, %.300q", text, err, out)
		}
		if ex.ExitCode() != 1 {
			rt.Fatalf("ended with %d and %.300q after a fatal error", ex.ExitCode(), ex.Stderr)
		}
		level := 2
		if stands != "" {
			level = rank[stands]
		}
		found := 0
		for _, l := range strings.Split(string(out), "\n") {
			var e entry
			if json.Unmarshal([]byte(l), &e) == nil && e.Message == mark+msg && e.Level == "fatal" && e.Service == "child" {
				found++
			}
		}
		if (found == 1) != (level <= rank["fatal"]) || found > 1 {
			rt.Fatalf("the fatal error is %d times in the log %.300q of level %q", found, out, text)
		}
		c.Addf("fatal at %q: %.60q", text, msg)
		c.NonTrivial("ended")
	})
}
