package eng

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type shardOut struct {
	res     result
	states  []byte
	crashes []Failure
}

type endOf struct {
	exited   bool
	hang     string
	code     string
	stderr   string
	caseNum  int
	caseDesc string
	hasCase  bool
}

func cpuTicks(pid int) (int, bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, false
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 15 {
		return 0, false
	}
	u, _ := strconv.Atoi(f[11])
	s, _ := strconv.Atoi(f[12])
	return u + s, true
}

func readJournal(name string) (int, string, bool) {
	b, err := os.ReadFile(name)
	if err != nil || len(b) < 8 {
		return 0, "", false
	}
	n := int(binary.LittleEndian.Uint32(b))
	l := int(binary.LittleEndian.Uint32(b[4:]))
	if len(b) < 8+l {
		return 0, "", false
	}
	return n, string(b[8 : 8+l]), true
}

// runChild runs a child until it ends, or one of its cases hangs.
func runChild(c *Check, env []string, journal string, hangSec int) endOf {
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), env...)
	cmd.Env = append(cmd.Env, "VERIF_JOURNAL="+journal)
	errName := journal + ".err"
	ef, err := os.Create(errName)
	if err != nil {
		panic(err)
	}
	defer ef.Close()
	cmd.Stderr = ef
	if os.Getenv("VERIF_VERBOSE") != "" {
		cmd.Stdout = os.Stderr
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	os.Remove(journal)
	os.Remove(journal + ".json")
	os.Remove(journal + ".states")
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()

	var e endOf
	lastCase, caseTicks := -2, 0
	caseStart := time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			e.exited = true
			break loop
		case <-tick.C:
			n, _, ok := readJournal(journal)
			if !ok {
				n = -1
			}
			t, ok := cpuTicks(cmd.Process.Pid)
			if !ok {
				continue
			}
			if n != lastCase {
				lastCase, caseTicks, caseStart = n, t, time.Now()
			}
			if n >= 0 && t-caseTicks > hangSec*100 {
				e.hang = fmt.Sprintf("the case used more than %d s of CPU without ending", hangSec)
			}
			// some runtime threads always use a little CPU: idle means less than
			// one percent since the beginning of the case
			if n >= 0 && time.Since(caseStart) > time.Duration(hangSec)*time.Second &&
				float64(t-caseTicks) < time.Since(caseStart).Seconds() {
				e.hang = fmt.Sprintf("the case blocked for more than %d s", hangSec)
			}
			// a case that polls for something that never comes uses a little more
			if wall := time.Since(caseStart).Seconds(); n >= 0 && os.Getenv("VERIF_TIER") != "thorough" &&
				wall > float64(2*hangSec) && float64(t-caseTicks) < 10*wall {
				e.hang = fmt.Sprintf("the case made no progress for more than %d s", 2*hangSec)
			}
			if e.hang != "" {
				syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(5 * time.Second):
				}
				break loop
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	if !e.exited {
		select {
		case <-done:
		case <-time.After(10 * time.Second):
		}
	}
	if werr != nil {
		e.code = werr.Error()
	}
	sb, _ := os.ReadFile(errName)
	if len(sb) > 6000 {
		sb = append(append(sb[:3000:3000], []byte("\n...\n")...), sb[len(sb)-2500:]...)
	}
	e.stderr = string(sb)
	e.caseNum, e.caseDesc, e.hasCase = readJournal(journal)
	return e
}

func loadRes(journal string) (result, bool) {
	var r result
	b, err := os.ReadFile(journal + ".json")
	if err != nil {
		return r, false
	}
	if json.Unmarshal(b, &r) != nil {
		return r, false
	}
	return r, r.Done
}

func (a *result) add(b result) {
	a.Cases += b.Cases
	a.Transitions += b.Transitions
	a.Traces += b.Traces
	if a.Outcomes == nil {
		a.Outcomes = map[string]int{}
	}
	for k, v := range b.Outcomes {
		a.Outcomes[k] += v
	}
	a.Samples = append(a.Samples, b.Samples...)
	for _, n := range b.Notes {
		dup := false
		for _, m := range a.Notes {
			dup = dup || m == n
		}
		if !dup {
			a.Notes = append(a.Notes, n)
		}
	}
	a.Capped = a.Capped || b.Capped
	if b.SlowestMS > a.SlowestMS {
		a.SlowestMS, a.Slowest = b.SlowestMS, b.Slowest
	}
	a.Failures = append(a.Failures, b.Failures...)
}

func isOOM(s string) bool {
	return false
}

func parent(c *Check, thorough bool, seed uint64) int {
	start := time.Now()
	// a case given for replay
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		return replayMain(c, f)
	}
	tmp, err := os.MkdirTemp(TempDir(), "eng-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	shards := c.Shards
	if shards == 0 {
		shards = runtime.NumCPU()
	}
	shards = envInt("VERIF_SHARDS", shards)
	deadline := c.QuickSec
	if deadline == 0 {
		deadline = 240
	}
	if thorough {
		deadline = 3000
	}
	deadline = envInt("VERIF_DEADLINE", deadline)
	hang := c.HangSec
	if hang == 0 {
		hang = 180
	}
	os.Setenv("VERIF_TMP", tmp)

	outs := make([]shardOut, shards)
	var wg sync.WaitGroup
	var broken sync.Map
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			skip := 0
			for attempt := 0; ; attempt++ {
				left := deadline - int(time.Since(start).Seconds())
				if left < 1 {
					left = 1
				}
				journal := filepath.Join(tmp, fmt.Sprintf("j%d-%d", s, attempt))
				e := runChild(c, []string{
					fmt.Sprintf("VERIF_SHARD=%d/%d/%d", s, shards, skip),
					fmt.Sprintf("VERIF_DEADLINE=%d", left),
				}, journal, hang)
				res, done := loadRes(journal)
				outs[s].res.add(res)
				if sb, err := os.ReadFile(journal + ".states"); err == nil {
					outs[s].states = append(outs[s].states, sb...)
				}
				if done {
					return
				}
				if !e.hasCase {
					broken.Store(s, fmt.Sprintf("shard ended before its first case: %s %s", e.code, e.stderr))
					return
				}
				what := e.hang
				if what == "" {
					what = "the process ended: " + e.code
				}
				outs[s].crashes = append(outs[s].crashes, Failure{Case: e.caseDesc, What: what + "\n" + e.stderr})
				outs[s].res.Capped = true
				if len(outs[s].crashes) >= 2 {
					return
				}
				skip = e.caseNum + 1
			}
		}(s)
	}
	wg.Wait()

	var total result
	states := map[uint64]struct{}{}
	var crashes []Failure
	for _, o := range outs {
		total.add(o.res)
		for i := 0; i+8 <= len(o.states); i += 8 {
			states[binary.LittleEndian.Uint64(o.states[i:])] = struct{}{}
		}
		crashes = append(crashes, o.crashes...)
	}
	fails := total.Failures
	isCrash := map[int]bool{}
	for _, f := range crashes {
		isCrash[len(fails)] = true
		fails = append(fails, f)
	}

	// run the failures again, alone
	var confirmed []Failure
	for i, f := range fails {
		spent := time.Since(start)
		if len(confirmed) >= 3 || len(confirmed) >= 1 && spent > 400*time.Second {
			break
		}
		tries, hits := 3, 0
		if isCrash[i] {
			tries = 5
		}
		if spent > 300*time.Second {
			tries = 1
		}
		for t := 0; t < tries; t++ {
			if ok, _ := replayOnce(c, f.Case, filepath.Join(tmp, "replay"), hang); ok {
				hits++
				if isCrash[i] && strings.Contains(f.What, "more than") {
					tries = t + 1
					break // hangs take long to confirm
				}
			}
		}
		f.Rep = fmt.Sprintf("%d of %d", hits, tries)
		if isCrash[i] && hits == 0 {
			total.Notes = append(total.Notes, "not reproduced, not reported: "+firstLine(f.What)+" in "+f.Case)
			continue
		}
		confirmed = append(confirmed, f)
	}

	known := loadKnown(c.ID)
	nviol := 0
	for _, f := range confirmed {
		if k := known.match(f); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
			continue
		}
		p := replayPath(c.ID, nviol)
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": c.ID, "case": f.Case, "what": f.What, "reproduced": f.Rep,
			"tier": tierName(thorough), "seed": seed,
			"replay_cmd": fmt.Sprintf("/verif/check.sh %s --replay %s", c.ID, p),
		}, "", " ")
		os.WriteFile(p, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		fmt.Printf("  case: %s\n  %s\n", f.Case, strings.ReplaceAll(clip(f.What, 1500), "\n", "\n  "))
		nviol++
	}

	sort.Strings(total.Samples)
	samples := []string{}
	for i, s := range total.Samples {
		if i%(len(total.Samples)/8+1) == 0 {
			samples = append(samples, s)
		}
	}
	exhaustive := !total.Capped && nviol == 0 && len(fails) == 0
	cov := map[string]interface{}{
		"states":                        len(states),
		"transitions":                   total.Transitions,
		"traces_validated_against_impl": total.Traces,
		"cases":                         total.Cases,
		"samples":                       samples,
		"outcomes":                      total.Outcomes,
		"exhaustive":                    exhaustive,
		"bounds":                        c.Bounds,
		"shards":                        shards,
		"slowest_case":                  fmt.Sprintf("%s: %d ms", total.Slowest, total.SlowestMS),
	}
	if len(total.Notes) > 0 {
		cov["notes"] = total.Notes
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tierName(thorough), "seed": int(seed), "level": "model_checking",
		"coverage": cov, "assumptions": c.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", c.ID+".json"), append(b, '\n'), 0644)

	fmt.Printf("%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v wall=%.1fs\n",
		c.ID, tierName(thorough), total.Cases, len(states), total.Transitions, total.Traces,
		len(total.Outcomes), exhaustive, time.Since(start).Seconds())
	fmt.Printf("  slowest case: %s (%d ms)\n", total.Slowest, total.SlowestMS)
	for _, n := range total.Notes {
		fmt.Println("  note:", n)
	}
	rc := 0
	if nviol > 0 {
		rc = 1
	}
	broken.Range(func(k, v interface{}) bool {
		fmt.Printf("ERROR shard %v: %v\n", k, v)
		if rc == 0 {
			rc = 2
		}
		return true
	})
	if rc == 0 && total.Cases == 0 {
		fmt.Println("ERROR: no case was explored")
		rc = 2
	}
	return rc
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func tierName(t bool) string {
	if t {
		return "thorough"
	}
	return "quick"
}

// replayOnce runs one case alone and tells whether it fails.
func replayOnce(c *Check, desc, journal string, hang int) (bool, string) {
	e := runChild(c, []string{"VERIF_CASE=" + desc, "VERIF_SHARD=", "VERIF_DEADLINE=100000"}, journal, hang)
	res, done := loadRes(journal)
	if !done {
		if e.hang != "" {
			return true, e.hang + "\n" + e.stderr
		}
		return true, "the process ended: " + e.code + "\n" + e.stderr
	}
	if len(res.Failures) > 0 {
		return true, res.Failures[0].What
	}
	return false, ""
}

func replayMain(c *Check, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v struct{ Case, Tier string }
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	os.Setenv("VERIF_TIER", v.Tier)
	os.Unsetenv("VERIF_REPLAY")
	tmp, _ := os.MkdirTemp(TempDir(), "eng-")
	defer os.RemoveAll(tmp)
	os.Setenv("VERIF_TMP", tmp)
	hang := c.HangSec
	if hang == 0 {
		hang = 180
	}
	ok, what := replayOnce(c, v.Case, filepath.Join(tmp, "replay"), hang)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n  case: %s\n  %s\n", c.ID, file, v.Case, what)
		return 1
	}
	fmt.Println("the case holds:", v.Case)
	return 0
}

type knownList []string

// loadKnown reads the findings of a property: lines
// "finding: property=<id> case=<prefix of the case> :: <what fails>".
func loadKnown(id string) knownList {
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out knownList
	for _, l := range strings.Split(string(b), "\n") {
		p := "finding: property=" + id + " case="
		if strings.HasPrefix(l, p) {
			out = append(out, strings.TrimPrefix(l, p))
		}
	}
	return out
}

func (k knownList) match(f Failure) string {
	for _, l := range k {
		parts := strings.SplitN(l, " :: ", 2)
		if len(parts) == 2 && f.Case == parts[0] {
			return parts[1] + " (" + parts[0] + ")"
		}
	}
	return ""
}
