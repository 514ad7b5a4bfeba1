package core

import (
	"bufio"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Property binds an id to its scenarios.
type Property struct {
	ID string
	// Scenarios lists what to explore; thorough is the deep tier.
	Scenarios func(thorough bool) []Scenario
	// Level is the evidence level ("model_checking" when empty).
	Level       string
	Rule        string
	Assumptions []string
	Init        func() error
	// Unpriv runs the exploration as an unprivileged user that owns nothing but
	// a scratch directory (core.Scratch), so that an operation escaping the code
	// under test reaches nothing real.
	Unpriv bool
}

// Scratch is the scratch directory of an Unpriv property.
func Scratch() string {
	d := os.Getenv("MC_SCRATCH")
	if d == "" {
		panic("mc: no scratch directory")
	}
	return d
}

var registry = map[string]*Property{}

// Register adds a property to the binary.
func Register(p *Property) { registry[p.ID] = p }

type known struct {
	property, key, desc string
}

// loadKnown reads the known-findings file: lines
//
//	finding: property=<id> key=<key> <what fails>
//
// Lines starting "fixed:" record repaired defects and suppress nothing.
func loadKnown(path string) ([]known, error) {
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var k known
		fields := strings.Fields(l)
		for i, w := range fields[1:] {
			switch {
			case strings.HasPrefix(w, "property="):
				k.property = w[len("property="):]
			case strings.HasPrefix(w, "key="):
				k.key = w[len("key="):]
				k.desc = strings.Join(fields[i+2:], " ")
			}
		}
		out = append(out, k)
	}
	return out, sc.Err()
}

var knownKeys = map[string]bool{}

// Known reports whether key is a listed finding of the property being checked;
// a scenario may use it to prune below a finding rather than stop there.
func Known(key string) bool { return knownKeys[key] }

// Finding reports a listed finding and prunes the execution below it, or fails
// when key is not listed.
func (c *C) Finding(key, format string, a ...any) { c.Fail(key, format, a...) }

// Main runs one property. Usage: bin [-tier quick|thorough] [-replay file] <id>.
func Main() {
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	replay := flag.String("replay", "", "replay file")
	only := flag.String("scenario", "", "run only scenarios whose name contains this")
	budget := flag.Duration("budget", 0, "time budget")
	flag.Parse()
	id := flag.Arg(0)
	p := registry[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		os.Exit(2)
	}
	root := envOr("VERIF_ROOT", "/verif")
	shown := envOr("MC_SHOWN_ROOT", root)
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	thorough := *tier == "thorough"
	if os.Getenv("MC_CHILD") == "" {
		os.Exit(supervise(root, p, id, *tier, seed))
	}
	debug.SetMaxStack(64 << 20)
	if p.Init != nil {
		if err := p.Init(); err != nil {
			fmt.Fprintf(os.Stderr, "init: %v\n", err)
			os.Exit(2)
		}
	}
	scs := p.Scenarios(thorough)

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, sc := range append(scs, p.Scenarios(!thorough)...) {
			if sc.Name == v.Scenario {
				r := Replay(sc, v.Trace)
				if r == nil {
					fmt.Println("replay: no violation")
					os.Exit(0)
				}
				fmt.Printf("replay: %s\n%s\nhistory:\n  %s\n", r.Key, r.Msg, strings.Join(r.Log, "\n  "))
				os.Exit(1)
			}
		}
		fmt.Fprintln(os.Stderr, "no such scenario")
		os.Exit(2)
	}

	ks, err := loadKnown(filepath.Join(root, "KNOWN_FINDINGS"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	desc := map[string]string{}
	for _, k := range ks {
		if k.property == id {
			knownKeys[k.key] = true
			desc[k.key] = k.desc
		}
	}

	total := *budget
	if total == 0 {
		total = 150 * time.Second
		if thorough {
			total = 780 * time.Second
		}
	}
	t0 := time.Now()
	end := t0.Add(total)
	var results []*Result
	var viols []*Violation
	findings := map[string]bool{}
	exhaustive := true
	for i, sc := range scs {
		if *only != "" && !strings.Contains(sc.Name, *only) {
			continue
		}
		// Every scenario may use what is left, keeping a share for the rest.
		left := time.Until(end)
		dl := time.Now().Add(left)
		if len(scs)-i-1 > 0 {
			dl = time.Now().Add(left * 6 / 10)
		}
		mv := 8
		if os.Getenv("MC_TUNE") != "" {
			mv = 1 << 30
		}
		r := Explore(sc, dl, mv)
		results = append(results, r)
		if !r.Exhaustive {
			exhaustive = false
		}
		for _, v := range r.Violations {
			v.Property = id
			if knownKeys[v.Key] {
				findings[v.Key] = true
				continue
			}
			if v.Repro >= 0 {
				n := 0
				for j := 0; j < 5; j++ {
					if rv := Replay(sc, v.Trace); rv != nil && rv.Key == v.Key {
						n++
					}
				}
				v.Repro = n
			}
			viols = append(viols, v)
		}
		stop := false
		for _, v := range viols {
			stop = stop || v.Repro != 0
		}
		if stop && os.Getenv("MC_TUNE") == "" {
			break
		}
	}

	rc := 0
	var ran []string
	for _, v := range viols {
		if v.Repro == 0 {
			// Not reproducible: the harness, not the code, is to blame. Never an alarm.
			fmt.Fprintf(os.Stderr, "unreproducible observation %s: %s\n", v.Key, v.Msg)
			exhaustive = false
			continue
		}
		rc = 1
		path := filepath.Join(root, "evidence", fmt.Sprintf("replay-%s-%d.json", id, len(ran)))
		_ = os.MkdirAll(filepath.Dir(path), 0o755)
		b, _ := json.MarshalIndent(v, "", " ")
		_ = os.WriteFile(path, b, 0o644)
		ran = append(ran, path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, filepath.Join(shown, "evidence", filepath.Base(path)))
		msg := v.Msg
		if len(msg) > 3000 {
			msg = msg[:3000] + "..."
		}
		fmt.Printf("  scenario=%s key=%s reproduced=%d/5\n  %s\n  history:\n    %s\n", v.Scenario, v.Key, v.Repro, msg, strings.Join(v.Log, "\n    "))
	}
	for k := range knownKeys {
		// Listed findings are reported whether or not this tier's bound reached them.
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, desc[k])
	}

	writeEvidence(root, p, id, *tier, seed, results, exhaustive && len(results) == len(scs), len(viols), len(findings), time.Since(t0))
	os.Exit(rc)
}

// supervise runs the exploration in a child process, so that an execution the
// Go runtime ends (stack overflow, concurrent map access, a panic on a
// goroutine of the code under test) is a verdict too and not a lost check.
func supervise(root string, p *Property, id, tier string, seed int) int {
	run := func() (int, string) {
		cmd := exec.Command(os.Args[0], os.Args[1:]...)
		cmd.Env = append(os.Environ(), "MC_CHILD=1", "GOTRACEBACK=single")
		if p.Unpriv {
			done, err := unprivileged(cmd, root)
			if err != nil {
				fmt.Fprintln(os.Stderr, "scratch:", err)
				return 2, ""
			}
			defer done()
		}
		cmd.Stdout = os.Stdout
		var tail head
		cmd.Stderr = io.MultiWriter(os.Stderr, &tail)
		err := cmd.Run()
		if err == nil {
			return 0, ""
		}
		var ee *exec.ExitError
		if errors.As(err, &ee) && ee.ExitCode() >= 0 {
			return ee.ExitCode(), string(tail)
		}
		return 2, string(tail)
	}
	fatal := func(rc int, msg string) bool {
		if rc == 0 || rc == 1 || !strings.Contains(msg, "ngicks/go-fsys-helper") {
			return false
		}
		return strings.Contains(msg, "fatal error: ") && !strings.Contains(msg, "out of memory") ||
			strings.Contains(msg, "stack exceeds") || strings.Contains(msg, "panic: ")
	}
	t0 := time.Now()
	rc, msg := run()
	if !fatal(rc, msg) {
		return rc
	}
	if rc2, msg2 := run(); !fatal(rc2, msg2) {
		fmt.Fprintln(os.Stderr, "the first run ended in a runtime failure that did not recur")
		return rc2
	}
	path := filepath.Join(root, "evidence", "replay-"+id+"-fatal.txt")
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	_ = os.WriteFile(path, []byte(msg), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	if len(msg) > 3000 {
		msg = msg[:3000]
	}
	fmt.Printf("  key=fatal the Go runtime ended an explored execution\n%s\n", msg)
	writeEvidence(root, p, id, tier, seed, nil, false, 1, 0, time.Since(t0))
	return 1
}

// unprivileged prepares cmd to run as nobody from a scratch directory; the
// returned function collects what it wrote and removes the directory.
func unprivileged(cmd *exec.Cmd, root string) (func(), error) {
	const nobody = 65534
	base := "/dev/shm"
	dir, err := os.MkdirTemp(base, "mc")
	if err != nil {
		if dir, err = os.MkdirTemp("", "mc"); err != nil {
			return nil, err
		}
	}
	// /dev/shm may refuse to execute.
	exe, err := os.MkdirTemp("", "mcbin")
	if err != nil {
		_ = os.RemoveAll(dir)
		return nil, err
	}
	fail := func(err error) (func(), error) {
		_ = os.RemoveAll(dir)
		_ = os.RemoveAll(exe)
		return nil, err
	}
	bin, err := os.ReadFile(os.Args[0])
	if err != nil {
		return fail(err)
	}
	kf, _ := os.ReadFile(filepath.Join(root, "KNOWN_FINDINGS"))
	work, home := filepath.Join(dir, "w"), filepath.Join(dir, "h")
	if err := errors.Join(
		os.Chmod(dir, 0o755), os.Chmod(exe, 0o755),
		os.Mkdir(work, 0o755), os.Mkdir(home, 0o755), os.Mkdir(filepath.Join(home, "evidence"), 0o755),
		os.WriteFile(filepath.Join(exe, "mc"), bin, 0o755),
		os.WriteFile(filepath.Join(home, "KNOWN_FINDINGS"), kf, 0o644),
	); err != nil {
		return fail(err)
	}
	cmd.Path = filepath.Join(exe, "mc")
	cmd.Dir = work
	cmd.Env = append(cmd.Env, "MC_SCRATCH="+work, "TMPDIR="+work, "HOME="+work, "VERIF_ROOT="+home, "MC_SHOWN_ROOT="+root)
	if os.Getuid() == 0 {
		if err := errors.Join(os.Chown(work, nobody, nobody), os.Chown(home, nobody, nobody), os.Chown(filepath.Join(home, "evidence"), nobody, nobody)); err != nil {
			return fail(err)
		}
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	return func() {
		_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		es, _ := os.ReadDir(filepath.Join(home, "evidence"))
		for _, e := range es {
			if b, err := os.ReadFile(filepath.Join(home, "evidence", e.Name())); err == nil {
				_ = os.WriteFile(filepath.Join(root, "evidence", e.Name()), b, 0o644)
			}
		}
		_ = os.RemoveAll(dir)
		_ = os.RemoveAll(exe)
	}, nil
}

// head keeps the first 256 KiB written to it.
type head []byte

func (h *head) Write(p []byte) (int, error) {
	if n := 256<<10 - len(*h); n > 0 {
		*h = append(*h, p[:min(n, len(p))]...)
	}
	return len(p), nil
}

func writeEvidence(root string, p *Property, id, tier string, seed int, rs []*Result, exhaustive bool, nv, nf int, wall time.Duration) {
	var ex, st, tr, ch, di int64
	var samples []string
	for _, r := range rs {
		ex += r.Executions
		st += r.States
		tr += r.Steps
		ch += r.Choices
		di += int64(r.Distinct)
		for i, s := range r.Samples {
			if i < 3 {
				if len(s) > 1500 {
					s = s[:1500] + "..."
				}
				samples = append(samples, s)
			}
		}
	}
	if st == 0 {
		// Stateless scenarios: the distinct choice-tree nodes are the states.
		st = ch
	}
	if tr == 0 {
		tr = ch
	}
	level := p.Level
	if level == "" {
		level = "model_checking"
	}
	cov := map[string]any{
		"states": st, "transitions": tr, "traces_validated_against_impl": ex,
		"choice_points": ch, "distinct_observations": di,
		"samples": samples, "exhaustive": exhaustive, "scenarios": rs,
		"rule": p.Rule, "known_findings_hit": nf,
	}
	if level != "model_checking" {
		cov["evaluations"] = ex
		cov["distinct_nontrivial"] = di
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": level,
		"coverage": cov, "assumptions": p.Assumptions, "wall_s": wall.Seconds(), "violations": nv,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(root, "evidence", id+".json"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "evidence: %v\n", err)
	}
	fmt.Printf("%s tier=%s executions=%d states=%d transitions=%d exhaustive=%v violations=%d wall=%.1fs\n", id, tier, ex, st, tr, exhaustive, nv, wall.Seconds())
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
