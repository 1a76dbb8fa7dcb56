package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"yunion.io/x/log"
)

const slots = 64

var timing = os.Getenv("VERIF_TIMES") != ""

type result struct {
	Evals      int64            `json:"evals"`
	Distinct   int              `json:"distinct"`
	Ev         map[string]int64 `json:"ev"`
	Samples    []string         `json:"samples"`
	Violations []*Violation     `json:"violations"`
	Planned    int64            `json:"planned"`
}

func die(format string, args ...interface{}) {
	fmt.Printf("ERROR "+format+"\n", args...)
	os.Exit(3)
}

func main() {
	// not the zone of the machine, so that local times differ from UTC everywhere
	time.Local = time.FixedZone("LOC", 5*3600+45*60)
	if len(os.Args) < 2 {
		die("usage: harness check|worker|one|replay ...")
	}
	switch os.Args[1] {
	case "list":
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "check":
		os.Exit(supervise(os.Args[2], os.Args[3]))
	case "worker":
		worker(os.Args[2:])
	case "hist":
		histRun(os.Args[2:])
	case "replay":
		replay(os.Args[2])
	default:
		die("unknown mode %s", os.Args[1])
	}
}

func envSeed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		n = 1
	}
	return n
}

func silence() {
	log.SetLogLevelByString(log.Logger(), "fatal")
}

// worker PROP TIER SEED OUT PROGRESS MEMMB GOROUTINES SKIP ONLY
func worker(a []string) {
	silence()
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
	p := props[a[0]]
	if p == nil {
		die("no property %s", a[0])
	}
	seed, _ := strconv.Atoi(a[2])
	rn := &runner{p: p, seed: seed, tier: a[1], thorough: a[1] == "thorough"}
	memMB, _ := strconv.Atoi(a[5])
	ng, _ := strconv.Atoi(a[6])
	skip := map[string]bool{}
	for _, s := range strings.Split(a[7], ",") {
		skip[s] = true
	}
	only := a[8]
	debug.SetMaxStack(256 << 20)
	if only != "" {
		// a single case gets a limit of processor time, not of wall time
		syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: 90, Max: 90})
	}
	go memWatch(memMB, a[4])
	if p.Init != nil {
		p.Init()
	}
	prog := mmapFile(a[4])

	type span struct {
		w     *Workload
		first int64
		n     int64
	}
	var spans []span
	var total int64
	for i := range p.W {
		n := int64(p.W[i].N(rn.thorough))
		spans = append(spans, span{&p.W[i], total, n})
		total += n
	}
	res := &result{Planned: total, Ev: map[string]int64{}}
	var (
		next  int64
		mu    sync.Mutex
		stop  int32
		wg    sync.WaitGroup
		stats = newStats()
	)
	if ng <= 0 {
		ng = runtime.NumCPU()
		if ng > 8 {
			ng = 8
		}
	}
	if p.Serial || only != "" {
		ng = 1
	}
	runOne := func(g int, w *Workload, wi int, idx int, st *wstats) {
		off := g * 24
		binary.LittleEndian.PutUint64(prog[off+8:], uint64(wi)<<32|uint64(uint32(idx)))
		binary.LittleEndian.PutUint64(prog[off+16:], uint64(time.Now().UnixNano()))
		binary.LittleEndian.PutUint64(prog[off:], 1)
		t0 := time.Now()
		v := rn.runCase(w, idx, st, false)
		if timing {
			d := time.Since(t0)
			st.ev["ms_"+w.Name] += d.Microseconds()
			if d > 500*time.Millisecond {
				fmt.Fprintf(os.Stderr, "slow %s:%d %v\n", w.Name, idx, d)
			}
		}
		binary.LittleEndian.PutUint64(prog[off:], 0)
		if v != nil {
			if !p.Serial {
				if v2 := rn.runCase(w, idx, newStats(), true); v2 != nil {
					v = v2
				}
			}
			mu.Lock()
			res.Violations = append(res.Violations, v)
			if len(res.Violations) >= 5 {
				atomic.StoreInt32(&stop, 1)
			}
			mu.Unlock()
		}
	}
	if only != "" {
		f := strings.SplitN(only, ":", 2)
		idx, _ := strconv.Atoi(f[1])
		for i := range p.W {
			if p.W[i].Name == f[0] {
				runOne(0, &p.W[i], i, idx, stats)
			}
		}
	} else {
		for g := 0; g < ng; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				st := newStats()
				for atomic.LoadInt32(&stop) == 0 {
					n := atomic.AddInt64(&next, 1) - 1
					if n >= total {
						break
					}
					wi := 0
					for wi+1 < len(spans) && spans[wi+1].first <= n {
						wi++
					}
					idx := int(n - spans[wi].first)
					if len(skip) > 1 && skip[fmt.Sprintf("%s:%d", spans[wi].w.Name, idx)] {
						continue
					}
					runOne(g, spans[wi].w, wi, idx, st)
				}
				mu.Lock()
				stats.merge(st)
				mu.Unlock()
			}(g)
		}
		wg.Wait()
	}
	res.Evals = stats.evals
	res.Distinct = len(stats.distinct)
	res.Ev = stats.ev
	sort.Strings(stats.samples)
	perWl := map[string]int{}
	for _, s := range stats.samples {
		k := s[:strings.IndexByte(s, '#')]
		if perWl[k] < 2 {
			perWl[k]++
			res.Samples = append(res.Samples, s)
		}
	}
	if os.Getenv("VERIF_PROFILE") != "" {
		pprof.StopCPUProfile()
	}
	out, _ := json.Marshal(res)
	if err := os.WriteFile(a[3], out, 0644); err != nil {
		die("write result: %v", err)
	}
	os.Exit(0)
}

func mmapFile(path string) []byte {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		die("progress file: %v", err)
	}
	f.Truncate(4096)
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		die("mmap: %v", err)
	}
	return b
}

func memWatch(mb int, prog string) {
	for {
		data, err := os.ReadFile("/proc/self/statm")
		if err == nil {
			f := strings.Fields(string(data))
			pages, _ := strconv.Atoi(f[1])
			if pages*4096>>20 > mb {
				os.WriteFile(prog+".mem", []byte(fmt.Sprint(pages*4096>>20)), 0644)
				os.Exit(97)
			}
		}
		time.Sleep(30 * time.Millisecond)
	}
}

type child struct {
	res    *result
	crash  string // the worker ended without a result
	stuck  string // the case that made no progress
	flight []string
	races  string
}

func (p *Prop) spawn(tier string, seed int, dir string, memMB, ng int, skip []string, only string) *child {
	ret := &child{}
	out := filepath.Join(dir, "result.json")
	prog := filepath.Join(dir, "progress")
	os.Remove(out)
	os.Remove(prog)
	os.Remove(prog + ".mem")
	old, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, o := range old {
		os.Remove(o)
	}
	pb := mmapFile(prog)
	defer syscall.Munmap(pb)
	self, _ := os.Executable()
	cmd := exec.Command(self, "worker", p.ID, tier, strconv.Itoa(seed), out, prog, strconv.Itoa(memMB), strconv.Itoa(ng), strings.Join(append(skip, ""), ","), only)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	serr, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		die("stderr: %v", err)
	}
	cmd.Stderr = serr
	cmd.Stdout = serr
	if err := cmd.Start(); err != nil {
		die("start worker: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	name := func(id uint64) string {
		wi, idx := int(id>>32), int(uint32(id))
		if wi >= len(p.W) {
			return ""
		}
		return fmt.Sprintf("%s:%d", p.W[wi].Name, idx)
	}
	inflight := func() []string {
		var r []string
		for g := 0; g < slots; g++ {
			if binary.LittleEndian.Uint64(pb[g*24:]) == 1 {
				if s := name(binary.LittleEndian.Uint64(pb[g*24+8:])); s != "" {
					r = append(r, s)
				}
			}
		}
		return r
	}
	start := time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			if only == "" {
				now := time.Now().UnixNano()
				for g := 0; g < slots; g++ {
					if binary.LittleEndian.Uint64(pb[g*24:]) == 1 {
						t0 := int64(binary.LittleEndian.Uint64(pb[g*24+16:]))
						if now-t0 > int64(25*time.Second) {
							ret.stuck = name(binary.LittleEndian.Uint64(pb[g*24+8:]))
						}
					}
				}
				if ret.stuck != "" {
					cmd.Process.Kill()
					<-done
					return ret
				}
			} else if time.Since(start) > 150*time.Second {
				// blocked without using the processor, or merely slow?
				if cpuSeconds(cmd.Process.Pid) < 2 {
					cmd.Process.Kill()
					<-done
					ret.stuck = only
					return ret
				}
			}
		}
	}
	if fs, _ := filepath.Glob(filepath.Join(dir, "race.*")); len(fs) > 0 {
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			ret.races += string(b)
		}
	}
	data, rerr := os.ReadFile(out)
	if rerr == nil && werr == nil {
		ret.res = &result{}
		if err := json.Unmarshal(data, ret.res); err == nil {
			return ret
		}
		ret.res = nil
	}
	ret.flight = inflight()
	se, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	ret.crash = clip(string(se), 8000)
	if ret.crash == "" {
		ret.crash = fmt.Sprintf("worker ended: %v", werr)
	}
	if m, err := os.ReadFile(prog + ".mem"); err == nil {
		ret.crash = fmt.Sprintf("the worker used %s MB of memory", m)
	} else if werr != nil && strings.Contains(werr.Error(), "killed") {
		ret.crash = "killed (processor time or memory): " + ret.crash
	}
	return ret
}

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

func supervise(id, tier string) int {
	t0 := time.Now()
	p := props[id]
	if p == nil {
		die("no property %s", id)
	}
	seed := envSeed()
	verif := os.Getenv("VERIF_DIR")
	evdir := filepath.Join(verif, "evidence")
	rpdir := filepath.Join(evdir, "replay")
	os.MkdirAll(rpdir, 0755)
	dir, err := os.MkdirTemp("", "jvmon")
	if err != nil {
		die("tmp: %v", err)
	}
	defer os.RemoveAll(dir)

	var violations []*Violation
	var notes []string
	var skip []string
	var fin *result
	races := ""
	memMB := 8000
	fatal := func(wl, msg string) {
		f := strings.SplitN(wl+":0", ":", 3)
		idx, _ := strconv.Atoi(f[1])
		violations = append(violations, &Violation{Property: id, Tier: tier, Seed: seed, Workload: f[0], Index: idx, Message: msg})
	}
	for attempt := 0; attempt < 6 && fin == nil && len(violations) == 0; attempt++ {
		ng := 0
		if attempt >= 3 {
			ng = 2
		}
		ch := p.spawn(tier, seed, dir, memMB, ng, skip, "")
		races += ch.races
		if ch.res != nil {
			fin = ch.res
			break
		}
		var suspects []string
		what := "crash"
		if ch.stuck != "" {
			suspects = []string{ch.stuck}
			what = "no progress"
		} else {
			suspects = ch.flight
		}
		notes = append(notes, fmt.Sprintf("attempt %d: %s; in flight %v; %s", attempt, what, suspects, clip(ch.crash, 600)))
		reproduced := false
		for _, s := range suspects {
			one := p.spawn(tier, seed, dir, 3000, 1, nil, s)
			races += one.races
			if one.res == nil {
				reproduced = true
				if one.stuck != "" {
					fatal(s, "the case does not terminate: blocked for 150 s without using the processor")
				} else if strings.HasPrefix(one.crash, "killed") {
					fatal(s, "the case does not terminate within 90 s of processor time, alone in its process: "+one.crash)
				} else {
					fatal(s, "the case crashes the process: "+one.crash)
				}
				break
			}
			violations = append(violations, one.res.Violations...)
			if ch.stuck != "" {
				skip = append(skip, s) // it ended when alone: done
			}
		}
		if !reproduced && ch.stuck == "" && strings.Contains(ch.crash, "fatal error:") && !strings.Contains(ch.crash, "out of memory") {
			wl := "all:0"
			if len(ch.flight) > 0 {
				wl = ch.flight[0]
			}
			fatal(wl, "the process crashed (schedule dependent, in flight "+strings.Join(ch.flight, " ")+"): "+ch.crash)
		}
	}
	if fin == nil && len(violations) == 0 {
		die("inconclusive: %s", strings.Join(notes, "\n"))
	}
	if fin != nil {
		violations = append(violations, fin.Violations...)
	} else {
		fin = &result{Ev: map[string]int64{}}
	}
	nraces := strings.Count(races, "WARNING: DATA RACE")
	if nraces > 0 {
		violations = append(violations, &Violation{Property: id, Tier: tier, Seed: seed, Workload: "race-detector", Message: fmt.Sprintf("%d data race reports", nraces), Stack: clip(races, 12000)})
	}
	fin.Ev["data_race_reports"] = int64(nraces)
	if id != "C19" {
		delete(fin.Ev, "data_race_reports")
	}

	evals, distinct := fin.Evals, fin.Distinct
	if len(violations) == 0 {
		if evals+int64(len(skip)) != fin.Planned {
			die("inconclusive: %d of %d cases ran", evals, fin.Planned)
		}
		for k, min := range p.MinEv {
			if fin.Ev[k] < min && scale <= 1 {
				die("inconclusive: event %s observed %d times, expected at least %d", k, fin.Ev[k], min)
			}
		}
	}
	known := probeKnown(p, verif)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         evals,
			"distinct_nontrivial": distinct,
			"rule":                p.Rule,
			"samples":             fin.Samples,
			"events":              fin.Ev,
			"supervisor_notes":    notes,
			"known_findings":      known,
		},
		"assumptions": p.Assume,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(violations),
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), data, 0644); err != nil {
		die("evidence: %v", err)
	}
	for _, k := range known {
		fmt.Println(strings.ToValidUTF8(k, "\ufffd"))
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s\n", id, tier, seed, evals, distinct, len(violations), time.Since(t0).Seconds())
	keys := []string{}
	for k := range fin.Ev {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  observed %s: %d\n", k, fin.Ev[k])
	}
	if len(violations) == 0 {
		return 0
	}
	for i, v := range violations {
		if i >= 3 {
			break
		}
		rp := filepath.Join(rpdir, fmt.Sprintf("%s-%d.json", id, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(rp, b, 0644)
		fmt.Printf("-- %s case %s#%d: %s\n", id, v.Workload, v.Index, strings.ToValidUTF8(clip(v.Message, 1500), "\ufffd"))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	}
	return 1
}

type knownFinding struct {
	Status   string `json:"status"`
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
}

// probeKnown re-runs the listed known findings of a property
func probeKnown(p *Prop, verif string) []string {
	ret := []string{}
	data, err := os.ReadFile(filepath.Join(verif, "known_findings.jsonl"))
	if err != nil {
		return ret
	}
	silence()
	for _, line := range strings.Split(string(data), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(line), &k) != nil || k.Status != "open" || k.Property != p.ID {
			continue
		}
		if f := p.Probe[k.ID]; f != nil {
			fails, what := false, ""
			if r := try(func() { fails, what = f() }); r != nil {
				fails, what = true, fmt.Sprint(r)
			}
			if fails {
				ret = append(ret, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s (%s)", p.ID, k.ID, k.What, what))
			}
		}
	}
	return ret
}

func replay(file string) {
	silence()
	data, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var v Violation
	if err := json.Unmarshal(data, &v); err != nil {
		die("%v", err)
	}
	p := props[v.Property]
	if p == nil {
		die("no property %s", v.Property)
	}
	if p.Init != nil {
		p.Init()
	}
	debug.SetMaxStack(256 << 20)
	rn := &runner{p: p, seed: v.Seed, tier: v.Tier, thorough: v.Tier == "thorough"}
	for i := range p.W {
		if p.W[i].Name == v.Workload {
			got := rn.runCase(&p.W[i], v.Index, newStats(), true)
			if got == nil {
				fmt.Println("the case passes on this tree")
				os.Exit(0)
			}
			for _, t := range got.Trace {
				fmt.Println(" ", t)
			}
			fmt.Println(strings.ToValidUTF8(got.Message, "\ufffd"))
			fmt.Println(got.Stack)
			os.Exit(1)
		}
	}
	fmt.Println("no such workload (recorded message follows)")
	fmt.Println(v.Message, v.Stack)
	os.Exit(1)
}
