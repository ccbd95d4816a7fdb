package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Run is an engine with its number of cases per tier
type Run struct {
	Engine          string
	Quick, Thorough int
}

// Variant is one build and environment in which engines run
type Variant struct {
	Name    string
	Flags   []string // extra go build flags
	Build   []string // extra environment of go build
	Go      string   // go command of another release
	Env     []string
	Workers int
	Runs    []Run
	// report text in stderr which is a violation even when the process goes on
	Markers []string
}

// Prop is a property with everything that decides it
type Prop struct {
	ID, Level   string
	Rule        string
	Assumptions []string
	Variants    []Variant
}

var (
	fProp    = flag.String("prop", "", "property")
	fVerif   = flag.String("verif", "/verif", "verif dir")
	fTmp     = flag.String("tmp", "", "scratch dir")
	fWorker  = flag.String("worker", "", "k/n (internal)")
	fVariant = flag.String("variant", "", "variant (internal)")
	fBase    = flag.String("base", "", "result base (internal)")
	fSeed    = flag.Uint64("seed", 0, "seed")
	fTier    = flag.String("tier", "", "tier")
	fStart   = flag.String("start", "", "eng:idx (internal)")
	fOne     = flag.String("one", "", "engine:idx, run one case")
	fReplay  = flag.String("replay", "", "replay file")
	fRare    = flag.Bool("rare", false, "list what is observed rarely")
	fScale   = flag.Float64("scale", 1, "scale the number of cases (development)")
)

func main() {
	flag.Parse()
	if *fTier == "" {
		*fTier = os.Getenv("VERIF_TIER")
	}
	if *fTier != "thorough" {
		*fTier = "quick"
	}
	if *fSeed == 0 {
		n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
		if err != nil {
			n = 1
		}
		*fSeed = n
	}
	if *fReplay != "" {
		b, err := os.ReadFile(*fReplay)
		var v Violation
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		*fProp, *fVariant, *fSeed, *fTier = v.Property, v.Variant, v.Seed, v.Tier
		*fOne = fmt.Sprintf("%s:%d", v.Engine, v.Index)
	}
	p := props[*fProp]
	if *fProp == "ALL" { // development: every engine which needs no special build
		p = allProp()
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(3)
	}
	if *fScale != 1 {
		for i := range p.Variants {
			for j := range p.Variants[i].Runs {
				r := &p.Variants[i].Runs[j]
				r.Quick = int(float64(r.Quick)**fScale) + 1
				r.Thorough = int(float64(r.Thorough)**fScale) + 1
			}
		}
	}
	variant := func() *Variant {
		for i := range p.Variants {
			if p.Variants[i].Name == *fVariant || *fVariant == "" {
				return &p.Variants[i]
			}
		}
		fmt.Fprintln(os.Stderr, "unknown variant", *fVariant)
		os.Exit(3)
		return nil
	}
	switch {
	case *fOne != "":
		i := strings.LastIndexByte(*fOne, ':')
		e := engines[(*fOne)[:i]]
		idx, _ := strconv.Atoi((*fOne)[i+1:])
		st := &stats{Feats: map[string]int64{}, Cases: map[string]int64{}, distinct: map[uint64]struct{}{}}
		var crumb []byte
		if *fBase != "" {
			crumb = mapCrumb(*fBase + ".crumb")
		}
		if v := runCase(p, variant(), e, 0, idx, *fSeed, *fTier, st, crumb); v != nil {
			fmt.Printf("VIOLATES %s\ncontext: %s\n", v.What, v.Context)
			os.Exit(1)
		}
		fmt.Println("held", st.Evals)
	case *fWorker != "":
		var k, n int
		fmt.Sscanf(*fWorker, "%d/%d", &k, &n)
		se, si := 0, 0
		fmt.Sscanf(*fStart, "%d:%d", &se, &si)
		worker(p, variant(), *fSeed, *fTier, k, n, *fBase, se, si)
	default:
		os.Exit(supervise(p))
	}
}

func allProp() *Prop {
	p := &Prop{ID: "ALL", Level: "exploration", Variants: []Variant{{Name: "plain"}}}
	best := map[string]Run{}
	for _, x := range props {
		for _, v := range x.Variants {
			if len(v.Flags)+len(v.Env)+len(v.Build)+len(v.Go) == 0 {
				for _, r := range v.Runs {
					if b, ok := best[r.Engine]; !ok || r.Quick > b.Quick {
						best[r.Engine] = r
					}
				}
			}
		}
	}
	var names []string
	for n := range best {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		p.Variants[0].Runs = append(p.Variants[0].Runs, best[n])
	}
	return p
}

type outcome struct {
	st     stats
	hashes []uint64
	viols  []Violation
	fatal  string // inconclusive
}

// tailBuf keeps the head and the tail of a stream
type tailBuf struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if r := 1<<16 - len(t.head); r > 0 {
		if r > len(p) {
			r = len(p)
		}
		t.head = append(t.head, p[:r]...)
		p = p[r:]
	}
	t.tail = append(t.tail, p...)
	if len(t.tail) > 1<<16 {
		t.tail = append([]byte(nil), t.tail[len(t.tail)-1<<15:]...)
	}
	return n, nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.tail)
}

const stuckAfter = 45 * time.Second

func hasMarker(v *Variant, s string) bool {
	for _, m := range v.Markers {
		if strings.Contains(s, m) {
			return true
		}
	}
	return false
}

// runWorker runs one shard to its end, restarting it after a case which was
// slow because the machine was loaded
func runWorker(p *Prop, v *Variant, bin string, k, n int) (o outcome) {
	base := filepath.Join(*fTmp, fmt.Sprintf("%s-%d", v.Name, k))
	start := ""
	for attempt := 0; attempt < 4; attempt++ {
		os.Remove(base + ".stats")
		args := []string{"-prop", p.ID, "-variant", v.Name, "-worker", fmt.Sprintf("%d/%d", k, n), "-base", base,
			"-seed", strconv.FormatUint(*fSeed, 10), "-tier", *fTier, "-scale", strconv.FormatFloat(*fScale, 'g', -1, 64)}
		if start != "" {
			args = append(args, "-start", start)
		}
		cmd := exec.Command(bin, args...)
		cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMAXPROCS="+strconv.Itoa(gomaxprocs(v)))
		cmd.Env = append(cmd.Env, v.Env...)
		var buf tailBuf
		cmd.Stdout, cmd.Stderr = &buf, &buf
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			o.fatal = err.Error()
			return
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var err error
		last, lastT, stuck := uint64(0), time.Now(), false
	wait:
		for {
			select {
			case err = <-done:
				break wait
			case <-time.After(500 * time.Millisecond):
			}
			if ci := readCrumb(base + ".crumb"); ci.usable && ci.tick != last {
				last, lastT = ci.tick, time.Now()
			} else if time.Since(lastT) > stuckAfter {
				stuck = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(5 * time.Second):
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					<-done
				}
				break wait
			}
		}
		ci := readCrumb(base + ".crumb")
		out := buf.String()
		mk := func(what string) Violation {
			eng := ""
			if ci.usable && ci.eng < len(v.Runs) {
				eng = v.Runs[ci.eng].Engine
			}
			return Violation{Property: p.ID, Variant: v.Name, Engine: eng, Index: ci.idx, Seed: *fSeed, Tier: *fTier, What: what, Context: clip(ci.note, 4000)}
		}
		if p.ID == "ALL" && (stuck || err != nil) {
			o.absorb(base)
			if len(o.viols) == 0 {
				o.viols = append(o.viols, mk("died or stuck: "+clip(out, 2000)))
			}
			return
		}
		if stuck {
			// decide on the case alone
			if ci.usable && ci.eng < len(v.Runs) {
				one := exec.Command(bin, "-prop", p.ID, "-variant", v.Name, "-one", fmt.Sprintf("%s:%d", v.Runs[ci.eng].Engine, ci.idx),
					"-seed", strconv.FormatUint(*fSeed, 10), "-tier", *fTier)
				one.Env = cmd.Env
				one.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
				if one.Start() == nil {
					d := make(chan error, 1)
					go func() { d <- one.Wait() }()
					select {
					case e := <-d:
						if e == nil { // slow machine: go on behind it
							o.absorb(base)
							start = fmt.Sprintf("%d:%d", ci.eng, ci.idx+n)
							continue
						}
						o.viols = append(o.viols, mk("the case never finished in the worker, and failed when run alone: "+e.Error()+"\n"+clip(out, 3000)))
						return
					case <-time.After(90 * time.Second):
						syscall.Kill(-one.Process.Pid, syscall.SIGKILL)
						<-d
						o.viols = append(o.viols, mk("does not terminate (alone for 90 s; such a case takes milliseconds)\n"+clip(out, 3000)))
						return
					}
				}
			}
			o.fatal = "worker stuck, cause unknown: " + clip(out, 1000)
			return
		}
		o.absorb(base)
		if hasMarker(v, out) {
			o.viols = append(o.viols, mk("sanitizer report:\n"+clip(out, 5000)))
			return
		}
		if err == nil {
			if _, e := os.Stat(base + ".stats"); e != nil {
				o.fatal = "worker left no result: " + clip(out, 1000)
			}
			return
		}
		if len(o.viols) > 0 {
			return
		}
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
			o.fatal = clip(out, 1000)
			return
		}
		if ee, ok := err.(*exec.ExitError); ok {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				// most probably ended from outside (memory); the case decides
				o.fatal = "worker was killed: " + clip(ci.note, 500)
				return
			}
		}
		o.viols = append(o.viols, mk("the process died: "+err.Error()+"\n"+clip(out, 5000)))
		return
	}
	o.fatal = "worker restarted too often"
	return
}

func gomaxprocs(v *Variant) int {
	if v.Workers > 0 && v.Workers < 8 {
		return 8 / v.Workers
	}
	return 2
}

func (o *outcome) absorb(base string) {
	if b, err := os.ReadFile(base + ".hashes"); err == nil {
		for i := 0; i+8 <= len(b); i += 8 {
			o.hashes = append(o.hashes, binary.LittleEndian.Uint64(b[i:]))
		}
		os.Remove(base + ".hashes")
	}
	b, err := os.ReadFile(base + ".stats")
	if err != nil {
		return
	}
	var st stats
	if json.Unmarshal(b, &st) != nil {
		return
	}
	if o.st.Feats == nil {
		o.st.Feats, o.st.Cases = map[string]int64{}, map[string]int64{}
	}
	o.st.Evals += st.Evals
	for k, v := range st.Feats {
		o.st.Feats[k] += v
	}
	for k, v := range st.Cases {
		o.st.Cases[k] += v
	}
	o.st.Samples = append(o.st.Samples, st.Samples...)
	o.viols = append(o.viols, st.Viols...)
}

// mustCases is the number of cases of an engine from which on it has to
// observe all that it is built to observe
const mustCases = 1000

func supervise(p *Prop) int {
	t0 := time.Now()
	if *fTmp == "" {
		fmt.Fprintln(os.Stderr, "-tmp is required")
		return 3
	}
	self, _ := os.Executable()
	replayDir := filepath.Join(*fVerif, "evidence", "replays")
	os.MkdirAll(replayDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(replayDir, p.ID+"-*"))
	for _, f := range old {
		os.Remove(f)
	}
	total := stats{Feats: map[string]int64{}, Cases: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	var viols []Violation
	var fatals []string
	perVariant := map[string]interface{}{}
	for vi := range p.Variants {
		v := &p.Variants[vi]
		bin := self
		if len(v.Flags)+len(v.Build)+len(v.Go) > 0 {
			bin = filepath.Join(*fTmp, "vmon-"+v.Name)
			args := append([]string{"build", "-o", bin}, v.Flags...)
			args = append(args, ".")
			goCmd := "go"
			if v.Go != "" {
				goCmd = v.Go
			}
			cmd := exec.Command(goCmd, args...)
			cmd.Dir = filepath.Join(*fVerif, "harness")
			cmd.Env = append(os.Environ(), v.Build...)
			if out, err := cmd.CombinedOutput(); err != nil {
				fmt.Printf("cannot build the %s variant: %v\n%s\n", v.Name, err, clip(string(out), 3000))
				return 3
			}
		}
		tv := time.Now()
		n := v.Workers
		if n == 0 {
			n = 8
		}
		outs := make([]outcome, n)
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				outs[k] = runWorker(p, v, bin, k, n)
			}(k)
		}
		wg.Wait()
		var ev int64
		cases := map[string]int64{}
		feats := map[string]int64{}
		for i := range outs {
			o := &outs[i]
			ev += o.st.Evals
			for k, x := range o.st.Feats {
				feats[k] += x
				total.Feats[k] += x
			}
			for k, x := range o.st.Cases {
				cases[k] += x
				total.Cases[k] += x
			}
			for _, h := range o.hashes {
				distinct[h] = struct{}{}
			}
			total.Samples = append(total.Samples, o.st.Samples...)
			viols = append(viols, o.viols...)
			if o.fatal != "" {
				fatals = append(fatals, v.Name+": "+o.fatal)
			}
		}
		total.Evals += ev
		for _, r := range v.Runs {
			var missing []string
			must := engines[r.Engine].Must
			for _, m := range must {
				if feats[m] == 0 {
					missing = append(missing, m)
				}
			}
			if len(missing) > 0 && (r.Quick >= mustCases || len(missing) == len(must)) && len(viols) == 0 && *fScale == 1 {
				fatals = append(fatals, fmt.Sprintf("%s: engine %s never observed %q", v.Name, r.Engine, missing))
			}
			if *fRare {
				for _, m := range must {
					if feats[m] < 30 {
						fmt.Printf("RARE %s %s %s %q %d\n", p.ID, v.Name, r.Engine, m, feats[m])
					}
				}
			}
		}
		perVariant[v.Name] = map[string]interface{}{"evaluations": ev, "cases_per_engine": cases, "wall_s": round(time.Since(tv).Seconds()), "go": v.Go, "build_flags": append(append([]string{}, v.Build...), v.Flags...), "env": v.Env}
		if len(viols) > 0 {
			break
		}
	}
	var ms, obs []string
	features := map[string]int64{}
	for k, x := range total.Feats {
		if strings.HasPrefix(k, "_ms_") {
			ms = append(ms, fmt.Sprintf("%s=%dms", k[4:], x))
			continue
		}
		features[k] = x
		obs = append(obs, fmt.Sprintf("%s=%d", k, x))
	}
	sort.Strings(ms)
	sort.Strings(obs)
	// one violation per engine is enough
	code := 0
	seen := map[string]bool{}
	nv := 0
	for i := range viols {
		v := &viols[i]
		if seen[v.Variant+v.Engine] {
			continue
		}
		seen[v.Variant+v.Engine] = true
		nv++
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", p.ID, nv))
		var b bytes.Buffer
		enc := json.NewEncoder(&b)
		enc.SetEscapeHTML(false)
		enc.SetIndent("", " ")
		enc.Encode(v)
		os.WriteFile(path, b.Bytes(), 0o644)
		fmt.Printf("--- %s/%s case %d: %s\n    context: %s\n", v.Variant, v.Engine, v.Index, printable(clip(v.What, 2500)), printable(clip(v.Context, 1500)))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		code = 1
	}
	sort.Strings(total.Samples)
	samples := pickSamples(total.Samples, 12)
	ev := map[string]interface{}{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": p.Level,
		"coverage": map[string]interface{}{
			"evaluations": total.Evals, "distinct_nontrivial": len(distinct), "rule": p.Rule, "samples": samples,
			"cases_per_engine": total.Cases, "observed": features, "variants": perVariant,
		},
		"assumptions": p.Assumptions, "wall_s": round(time.Since(t0).Seconds()), "violations": nv,
	}
	if len(fatals) > 0 {
		ev["inconclusive"] = fatals
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*fVerif, "evidence", p.ID+".json"), append(j, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 3
	}
	fmt.Printf("%s %s seed=%d: %d executions judged, %d distinct non-trivial, %d violations, %.1fs\n  time: %s\n",
		p.ID, *fTier, *fSeed, total.Evals, len(distinct), nv, time.Since(t0).Seconds(), strings.Join(ms, " "))
	fmt.Printf("  observed: %s\n", clip(strings.Join(obs, " "), 3000))
	if code == 0 && (len(fatals) > 0 || total.Evals == 0 || len(distinct) == 0) {
		fmt.Println("INCONCLUSIVE:", strings.Join(fatals, "; "))
		return 2
	}
	return code
}

// printable keeps the output of a check plain text
func printable(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if c := s[i]; c == '\n' || c >= ' ' && c < 0x7f {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "\\x%02x", c)
		}
	}
	return b.String()
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func pickSamples(all []string, n int) []string {
	if len(all) <= n {
		return all
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, all[i*len(all)/n])
	}
	return out
}
