package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------------------
// Framework. A property is a list of workloads; a workload is a number of
// independent cases, each fully determined by (VERIF_SEED, property,
// workload, case number). A parent process spreads the cases over
// single-threaded child processes, so cases are deterministic, a crash of the
// code under test is attributed to the case that was running, and a case that
// makes no progress is noticed.
// ---------------------------------------------------------------------------

type Workload struct {
	Name     string
	Quick    int // number of cases
	Thorough int
	Run      func(c *Ctx)
	Fixed    bool // the cases are an enumeration: more of them would be repetitions
	Serial   bool // one process runs all the cases, in order
}

// scale multiplies the number of cases of a property's workloads, so that the
// quick checks take ten to twenty seconds on an idle machine with 8 cores, and
// the thorough ones five to fifteen minutes.
var scale = map[string][2]int{}

func (wl *Workload) cases(id string, thorough bool) int {
	k, ok := scale[id]
	if !ok || wl.Fixed {
		k = [2]int{1, 1}
	}
	if thorough {
		return wl.Thorough * k[1]
	}
	return wl.Quick * k[0]
}

type Property struct {
	ID          string
	Level       string
	Rule        string // what a case is, and what makes it non-trivial
	Workloads   []Workload
	Require     []string // counters that must be > 0 on a complete run
	Assumptions []string
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

type Violation struct {
	Property string `json:"property"`
	Workload string `json:"workload"`
	Case     int    `json:"case"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Key      string `json:"key"`
	Message  string `json:"message"`
	Detail   string `json:"detail"`
}

type failure struct{ key, msg string }

type Ctx struct {
	*RNG
	Prop     string
	Workload string
	Case     int
	Thorough bool
	seed     int64
	counters map[string]int64
	distinct map[uint64]struct{}
	evals    int64
	samples  *[]any
	log      []string
	status   *status
}

// Fail reports a violation and ends the case.
func (c *Ctx) Fail(key string, format string, args ...any) {
	panic(failure{key, fmt.Sprintf(format, args...)})
}

// Failf uses the workload name as key.
func (c *Ctx) Failf(format string, args ...any) { c.Fail(c.Workload, format, args...) }

// Logf records an event of this case, shown if the case fails.
func (c *Ctx) Logf(format string, args ...any) {
	if len(c.log) < 400 {
		c.log = append(c.log, fmt.Sprintf(format, args...))
	}
}

// Count adds to an event counter shown in the evidence. Counters called
// max_something keep the largest value instead.
func (c *Ctx) Count(name string, n int) {
	if strings.HasPrefix(name, "max_") {
		c.counters[name] = max(c.counters[name], int64(n))
	} else {
		c.counters[name] += int64(n)
	}
}

// Eval notes one evaluated execution. key identifies it for distinctness; it
// only counts as distinct_nontrivial if nontrivial.
func (c *Ctx) Eval(key uint64, nontrivial bool) {
	c.evals++
	c.Beat()
	if nontrivial {
		c.distinct[mix(key^hashStr(c.Workload))] = struct{}{}
	}
}

// Beat tells the watchdog that the case makes progress.
func (c *Ctx) Beat() {
	if c.status != nil {
		c.status.beats++
	}
}

func (c *Ctx) Sample(format string, args ...any) {
	if len(*c.samples) < 3 && c.Case < 40 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		*c.samples = append(*c.samples, map[string]any{"workload": c.Workload, "case": c.Case, "what": s})
	}
}

// Try runs fn and returns the panic value and stack, if it panicked.
func Try(fn func()) (p any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				panic(f)
			}
			p = r
			stack = string(debug.Stack())
		}
	}()
	fn()
	return nil, ""
}

// NoPanic runs code under test that must not panic.
func (c *Ctx) NoPanic(what string, fn func()) {
	p, stack := Try(fn)
	if p != nil {
		c.Fail("panic", "%s panicked: %v\n%s", what, p, trimStack(stack))
	}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

type status struct {
	workload int64
	caseNum  int64
	beats    int64
}

type shardResult struct {
	Evals      int64            `json:"evals"`
	Cases      int64            `json:"cases"`
	Counters   map[string]int64 `json:"counters"`
	Distinct   []uint64         `json:"distinct"`
	Samples    []any            `json:"samples"`
	Violations []Violation      `json:"violations"`
}

const maxViolationsPerShard = 4

func caseSeed(seed int64, prop, workload string, n int) uint64 {
	return mix(uint64(seed)*0x9e3779b97f4a7c15 ^ hashStr(prop+"/"+workload) ^ mix(uint64(n)+0x1234567))
}

func runCase(prop *Property, wl *Workload, n int, seed int64, thorough bool, res *shardResult, distinct map[uint64]struct{}, st *status) {
	c := &Ctx{
		RNG:      &RNG{caseSeed(seed, prop.ID, wl.Name, n)},
		Prop:     prop.ID,
		Workload: wl.Name,
		Case:     n,
		Thorough: thorough,
		seed:     seed,
		counters: res.Counters,
		distinct: distinct,
		samples:  &res.Samples,
		status:   st,
	}
	seedCryptoRand(c.U64())
	defer func() {
		res.Evals += c.evals
		res.Cases++
		if r := recover(); r != nil {
			tier := "quick"
			if thorough {
				tier = "thorough"
			}
			v := Violation{Property: prop.ID, Workload: wl.Name, Case: n, Seed: seed, Tier: tier}
			if f, ok := r.(failure); ok {
				v.Key, v.Message = f.key, f.msg
			} else {
				v.Key = "panic"
				v.Message = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
			v.Detail = strings.Join(c.log, "\n")
			if len(v.Detail) > 60000 {
				v.Detail = v.Detail[:60000]
			}
			res.Violations = append(res.Violations, v)
		}
	}()
	wl.Run(c)
}

func childMain(propID, tier string, seed int64, shard, shards int, outDir string, onlyWl string, onlyCase int) {
	debug.SetGCPercent(200)
	prop := properties[propID]
	f, err := os.OpenFile(filepath.Join(outDir, fmt.Sprintf("status-%d", shard)), os.O_RDWR|os.O_CREATE, 0o644)
	must(err)
	must(f.Truncate(4096))
	mem, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	st := (*status)(unsafe.Pointer(&mem[0]))
	res := &shardResult{Counters: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	thorough := tier == "thorough"
	started := time.Now()
	skip := map[string]int{}
	for i := shard * 0; ; i++ { // cases to skip after a crash in an earlier incarnation of this shard
		b, err := os.ReadFile(filepath.Join(outDir, fmt.Sprintf("skip-%d-%d", shard, i)))
		if err != nil {
			break
		}
		skip[string(b)] = 1
	}
	for wi := range prop.Workloads {
		wl := &prop.Workloads[wi]
		n := wl.cases(prop.ID, thorough)
		if onlyWl != "" {
			if wl.Name == onlyWl {
				st.workload = int64(wi)
				st.caseNum = int64(onlyCase)
				runCase(prop, wl, onlyCase, seed, thorough, res, distinct, st)
			}
			continue
		}
		for k := 0; k < n; k++ {
			owner := k % shards
			if wl.Serial {
				owner = wi % shards
			}
			if owner != shard {
				continue
			}
			if skip[fmt.Sprintf("%s#%d", wl.Name, k)] != 0 {
				continue
			}
			if !thorough && time.Since(started) > quickDeadline {
				res.Counters["cases_left_out_by_the_deadline"]++
				continue
			}
			st.workload = int64(wi)
			st.caseNum = int64(k)
			st.beats++
			runCase(prop, wl, k, seed, thorough, res, distinct, st)
			if len(res.Violations) >= maxViolationsPerShard {
				goto done
			}
		}
	}
done:
	for h := range distinct {
		res.Distinct = append(res.Distinct, h)
	}
	b, err := json.Marshal(res)
	must(err)
	must(os.WriteFile(filepath.Join(outDir, fmt.Sprintf("result-%d.json", shard)), b, 0o644))
	os.Exit(0)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(3)
	}
}

// A case needs milliseconds, a few seconds for the largest fonts. It is taken
// for one that does not terminate when a single call used this much processor
// time (not wall-clock time, which on a loaded machine proves nothing), when
// it waited this long using none at all, or, whatever the machine, at the wall
// limit.
const (
	stallCPU  = 75 * time.Second
	stallIdle = 240 * time.Second
	stallWall = 600 * time.Second
)

// stalled tells whether a child without progress for wall, having used cpu in
// that time, is taken for one that does not terminate.
func stalled(wall, cpu time.Duration) bool {
	return cpu >= stallCPU || (wall >= stallIdle && cpu < wall/50) || wall >= stallWall
}

// cpuTime is the processor time, user and system, that a process used so far.
func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		s = s[i+1:]
	}
	fs := strings.Fields(s) // from field 3, the state
	if len(fs) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(fs[11], 10, 64)
	k, _ := strconv.ParseInt(fs[12], 10, 64)
	return time.Duration(u+k) * (time.Second / 100)
}

// quickDeadline keeps the quick checks within their 900 s on a machine that is
// very slow: what was left out is counted.
const quickDeadline = 500 * time.Second

const rssLimitKB = 7 << 20 // 7 GiB per child; the largest workload needs well below 1 GiB

func rssKB(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	fs := strings.Fields(string(b))
	if len(fs) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(fs[1])
	return n * (os.Getpagesize() / 1024)
}

type tailBuf struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.buf = append(t.buf, p...)
	if len(t.buf) > 1<<20 {
		t.buf = append(t.buf[:200000:200000], t.buf[len(t.buf)-200000:]...)
	}
	return len(p), nil
}

func (t *tailBuf) head(n int) string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.buf) > n {
		return string(t.buf[:n])
	}
	return string(t.buf)
}

func parentMain(verifDir, propID, tier string, seed int64, replay string) int {
	start := time.Now()
	prop := properties[propID]
	if prop == nil {
		fmt.Fprintln(os.Stderr, "unknown property", propID)
		return 3
	}
	outDir, err := os.MkdirTemp("", "vchk-"+propID+"-")
	must(err)
	defer os.RemoveAll(outDir)
	shards := 8
	var onlyWl string
	var onlyCase int
	if replay != "" {
		b, err := os.ReadFile(replay)
		must(err)
		var v Violation
		must(json.Unmarshal(b, &v))
		onlyWl, onlyCase, seed, tier = v.Workload, v.Case, v.Seed, v.Tier
		shards = 1
	}

	results := make([]*shardResult, shards)
	known := loadKnown(filepath.Join(verifDir, "known-findings.txt"), propID)
	var crashes []Violation
	var mu sync.Mutex
	var wg sync.WaitGroup
	harnessErr := false
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			for attempt := 0; attempt < 3; attempt++ {
				v, fatal := runChild(prop, tier, seed, s, shards, outDir, onlyWl, onlyCase)
				if v == nil && !fatal {
					break
				}
				mu.Lock()
				if fatal {
					harnessErr = true
				} else {
					crashes = append(crashes, *v)
				}
				mu.Unlock()
				if fatal || onlyWl != "" {
					break
				}
				if _, ok := matchKnown(known, *v); !ok {
					break // enough is known; going on could take as long again
				}
				must(os.WriteFile(filepath.Join(outDir, fmt.Sprintf("skip-%d-%d", s, attempt)), []byte(fmt.Sprintf("%s#%d", v.Workload, v.Case)), 0o644))
			}
			b, err := os.ReadFile(filepath.Join(outDir, fmt.Sprintf("result-%d.json", s)))
			if err == nil {
				var r shardResult
				if json.Unmarshal(b, &r) == nil {
					results[s] = &r
				}
			}
		}(s)
	}
	wg.Wait()
	if harnessErr {
		fmt.Fprintln(os.Stderr, "harness error in a child process")
		return 3
	}

	total := shardResult{Counters: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	var violations []Violation
	complete := true
	for _, r := range results {
		if r == nil {
			complete = false
			continue
		}
		total.Evals += r.Evals
		total.Cases += r.Cases
		for k, v := range r.Counters {
			if strings.HasPrefix(k, "max_") {
				total.Counters[k] = max(total.Counters[k], v)
			} else {
				total.Counters[k] += v
			}
		}
		for _, h := range r.Distinct {
			distinct[h] = struct{}{}
		}
		if len(total.Samples) < 4 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		violations = append(violations, r.Violations...)
	}
	if len(total.Samples) > 4 {
		total.Samples = total.Samples[:4]
	}
	violations = append(violations, crashes...)
	sort.SliceStable(violations, func(i, j int) bool {
		a, b := violations[i], violations[j]
		if a.Workload != b.Workload {
			return a.Workload < b.Workload
		}
		return a.Case < b.Case
	})

	var fresh []Violation
	printed := map[string]bool{}
	for _, v := range violations {
		if k, ok := matchKnown(known, v); ok {
			if !printed[k.key] {
				printed[k.key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", propID, k.desc)
			}
			continue
		}
		fresh = append(fresh, v)
	}

	replayDir := filepath.Join(verifDir, "out", propID)
	if replay == "" {
		os.RemoveAll(replayDir)
	}
	must(os.MkdirAll(replayDir, 0o755))
	for i, v := range fresh {
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%d.json", propID, sanitize(v.Workload), v.Case))
		if replay == "" {
			b, _ := json.MarshalIndent(v, "", "  ")
			must(os.WriteFile(path, b, 0o644))
		} else {
			path = replay
		}
		if i < 6 {
			msg := v.Message
			if len(msg) > 3000 && replay == "" {
				msg = msg[:3000] + "..."
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", propID, path)
			fmt.Printf("  workload=%s case=%d key=%s\n  %s\n", v.Workload, v.Case, v.Key, strings.ReplaceAll(msg, "\n", "\n  "))
			if replay != "" && v.Detail != "" {
				fmt.Printf("  events:\n  %s\n", strings.ReplaceAll(v.Detail, "\n", "\n  "))
			}
		}
	}

	if replay == "" {
		names := make([]string, 0)
		for k := range total.Counters {
			names = append(names, k)
		}
		sort.Strings(names)
		events := map[string]any{}
		for _, k := range names {
			events[k] = total.Counters[k]
		}
		cov := map[string]any{
			"evaluations":         total.Evals,
			"distinct_nontrivial": len(distinct),
			"cases":               total.Cases,
			"rule":                prop.Rule,
			"samples":             total.Samples,
			"observed":            events,
			"complete":            complete,
			"exhaustive":          false,
		}
		ev := map[string]any{
			"property":    propID,
			"tier":        tier,
			"seed":        seed,
			"level":       prop.Level,
			"coverage":    cov,
			"assumptions": prop.Assumptions,
			"wall_s":      time.Since(start).Seconds(),
			"violations":  len(fresh),
		}
		must(os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755))
		b, err := json.MarshalIndent(ev, "", "  ")
		must(err)
		must(os.WriteFile(filepath.Join(verifDir, "evidence", propID+".json"), append(b, '\n'), 0o644))
	}
	if len(fresh) > 0 {
		return 1
	}
	if replay == "" {
		for _, k := range prop.Require {
			if total.Counters[k] == 0 {
				fmt.Printf("INCONCLUSIVE property=%s: nothing observed for %q\n", propID, k)
				return 2
			}
		}
		if !complete || total.Evals == 0 {
			fmt.Printf("INCONCLUSIVE property=%s: incomplete run\n", propID)
			return 2
		}
	}
	fmt.Printf("OK property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs\n", propID, tier, seed, total.Cases, total.Evals, len(distinct), time.Since(start).Seconds())
	return 0
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

// runChild returns a violation if the child crashed, stalled or used an
// absurd amount of memory.
func runChild(prop *Property, tier string, seed int64, shard, shards int, outDir, onlyWl string, onlyCase int) (*Violation, bool) {
	exe, err := os.Executable()
	must(err)
	args := []string{"-child", prop.ID, tier, strconv.FormatInt(seed, 10), strconv.Itoa(shard), strconv.Itoa(shards), outDir, onlyWl, strconv.Itoa(onlyCase)}
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMAXPROCS="+childProcs(prop))
	if os.Getenv("GORACE") == "" {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=1 exitcode=66")
	}
	var out tailBuf
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	readStatus := func() (wl int, cs int, beats int64) {
		b, err := os.ReadFile(filepath.Join(outDir, fmt.Sprintf("status-%d", shard)))
		if err != nil || len(b) < 24 {
			return 0, 0, 0
		}
		st := (*status)(unsafe.Pointer(&b[0]))
		return int(st.workload), int(st.caseNum), st.beats
	}
	mk := func(key, msg string) *Violation {
		wl, cs, _ := readStatus()
		name := ""
		if wl < len(prop.Workloads) {
			name = prop.Workloads[wl].Name
		}
		return &Violation{Property: prop.ID, Workload: name, Case: cs, Seed: seed, Tier: tier, Key: key, Message: msg}
	}
	lastBeat := int64(-1)
	lastChange := time.Now()
	var lastCPU time.Duration
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			if err == nil {
				return nil, false
			}
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
				fmt.Fprintln(os.Stderr, out.head(4000))
				return nil, true
			}
			key := "crash"
			if strings.Contains(out.head(1<<20), "WARNING: DATA RACE") {
				key = "race"
			}
			return mk(key, fmt.Sprintf("the process running the code crashed (%v):\n%s", err, out.head(6000))), false
		case <-tick.C:
			_, _, b := readStatus()
			if b != lastBeat {
				lastBeat, lastChange, lastCPU = b, time.Now(), cpuTime(cmd.Process.Pid)
			}
			if wall, cpu := time.Since(lastChange), cpuTime(cmd.Process.Pid)-lastCPU; stalled(wall, cpu) {
				_ = cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(5 * time.Second):
					_ = cmd.Process.Kill()
					<-done
				}
				return mk("stall", fmt.Sprintf("no progress for %v (%v of processor time) in a single call:\n%s", wall.Round(time.Second), cpu.Round(time.Second), out.head(6000))), false
			}
			if rssKB(cmd.Process.Pid) > rssLimitKB {
				_ = cmd.Process.Kill()
				<-done
				return mk("memory", fmt.Sprintf("the process running the code used more than %d MiB", rssLimitKB>>10)), false
			}
		}
	}
}

func childProcs(prop *Property) string {
	if prop.ID == "P22" {
		return "8"
	}
	return "2"
}

type knownEntry struct{ prop, workload, key, match, desc string }

// known-findings.txt: lines "known: property=P key=K workload=W match=TEXT | description".
// Lines starting with "fixed:" are a record and suppress nothing.
func loadKnown(path, prop string) []knownEntry {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownEntry
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "known:") {
			continue
		}
		head, desc, _ := strings.Cut(strings.TrimPrefix(line, "known:"), "|")
		e := knownEntry{desc: strings.TrimSpace(desc)}
		for _, kv := range strings.Fields(head) {
			k, v, _ := strings.Cut(kv, "=")
			switch k {
			case "property":
				e.prop = v
			case "workload":
				e.workload = v
			case "key":
				e.key = v
			case "match":
				e.match = strings.ReplaceAll(v, "_", " ")
			}
		}
		if e.prop == prop {
			out = append(out, e)
		}
	}
	return out
}

func matchKnown(known []knownEntry, v Violation) (knownEntry, bool) {
	for _, k := range known {
		if k.key != v.Key || (k.workload != "" && k.workload != v.Workload) {
			continue
		}
		if k.match != "" && !strings.Contains(v.Message, k.match) {
			continue
		}
		return k, true
	}
	return knownEntry{}, false
}

func main() {
	if len(os.Args) >= 10 && os.Args[1] == "-child" {
		seed, _ := strconv.ParseInt(os.Args[4], 10, 64)
		shard, _ := strconv.Atoi(os.Args[5])
		shards, _ := strconv.Atoi(os.Args[6])
		oc, _ := strconv.Atoi(os.Args[9])
		childMain(os.Args[2], os.Args[3], seed, shard, shards, os.Args[7], os.Args[8], oc)
		return
	}
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: vchk VERIF_DIR PROPERTY quick|thorough [replay-file]")
		os.Exit(3)
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		} else {
			seed = int64(hashStr(s) >> 1)
		}
	}
	replay := ""
	if len(os.Args) > 4 {
		replay = os.Args[4]
	}
	os.Exit(parentMain(os.Args[1], os.Args[2], os.Args[3], seed, replay))
}
