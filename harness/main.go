// Command verifharness runs the real dash-mpd code under generated workloads while monitors
// written in this module judge every execution. See /verif/DESIGN.md.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
	_ "time/tzdata" // so that no zone is missing
)

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: verifharness VERIF_DIR ID [REPLAY.json]")
		os.Exit(2)
	}
	dir, id := os.Args[1], os.Args[2]
	chk := checks[id]
	if chk == nil {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	if os.Getenv("VERIF_CHILD") == "" {
		os.Exit(parent(dir, chk))
	}
	// Most of what a case allocates is dropped at once: collecting it seldom makes a check much faster.
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(6 << 30)
	os.Exit(child(dir, chk))
}

func child(dir string, chk *Check) int {
	debug.SetMaxStack(512 << 20)
	c := &Ctx{Check: chk, Seed: 1, Tier: "quick", Dir: dir, obs: map[string]int64{}, distinct: map[uint64]struct{}{},
		violKeys: map[string]int{}, knownHit: map[string]bool{}, start: time.Now()}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			c.Seed = n
		} else {
			c.Seed = int64(hash64(s) >> 1)
		}
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		c.Tier = "thorough"
	}
	if len(os.Args) > 3 {
		data, err := os.ReadFile(os.Args[3])
		if err != nil {
			fmt.Println(err)
			return 2
		}
		var v violation
		if err := json.Unmarshal(data, &v); err != nil {
			fmt.Println("not a replay of a single case:", err)
			return 2
		}
		c.Seed, c.Tier, c.replay = v.Seed, v.Tier, &v.caseID
	}
	// Nothing may depend on the time zone of the process.
	zones := []string{"Asia/Kathmandu", "America/St_Johns", "UTC", "Australia/Lord_Howe", "Europe/Stockholm"}
	if loc, err := time.LoadLocation(zones[uint64(c.Seed)%uint64(len(zones))]); err == nil {
		time.Local = loc
	}
	c.loadKnown()
	go c.watchdog()
	chk.Run(c)
	return c.finish()
}

// parent runs the check in a child process, so that a crash the runtime cannot recover from
// (stack overflow, concurrent map access, a data race report) is observed and attributed.
func parent(dir string, chk *Check) int {
	out := filepath.Join(dir, "evidence")
	os.MkdirAll(out, 0o755)
	old, _ := filepath.Glob(filepath.Join(out, chk.ID+"-*"))
	for _, f := range old {
		if len(os.Args) <= 3 {
			os.Remove(f)
		}
	}
	crash := filepath.Join(out, chk.ID+"-crash.txt")
	f, err := os.Create(crash)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	start := time.Now()
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "GOMEMLIMIT=20GiB")
	cmd.Stdout = os.Stdout
	cmd.Stderr = f
	if err := cmd.Start(); err != nil {
		fmt.Println(err)
		return 2
	}
	limit := 840 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		limit = 4 * time.Hour
	}
	timer := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	late := !timer.Stop()
	f.Close()
	if err == nil {
		os.Remove(crash)
		return 0
	}
	data, _ := os.ReadFile(crash)
	text := string(data)
	if late {
		fmt.Println("INCONCLUSIVE: the wall-clock limit of the whole run was reached")
		return 2
	}
	code := cmd.ProcessState.ExitCode()
	if code == 1 || code == 2 && text == "" {
		if text == "" {
			os.Remove(crash)
		}
		return code
	}
	fmt.Println(strings.ToValidUTF8(clip(text, 4000), "\uFFFD"))
	report := strings.Contains(text, "DATA RACE") || strings.Contains(text, "fatal error:") || strings.Contains(text, "panic:") || strings.Contains(text, "stack exceeds")
	if report && strings.Contains(text, "Eyevinn/dash-mpd/") {
		ev := map[string]any{"property": chk.ID, "tier": tierOf(), "seed": 1, "level": chk.Level, "wall_s": time.Since(start).Seconds(), "violations": 1,
			"coverage": map[string]any{"evaluations": 1, "distinct_nontrivial": 1, "rule": chk.Rule, "samples": []any{clip(text, 2000)}}}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(out, chk.ID+".json"), b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, crash)
		return 1
	}
	fmt.Println("INCONCLUSIVE: the child ended with", err)
	return 2
}

func tierOf() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}
