package props

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"

	"verifharness/v"
)

// TestReplay runs one harness on one recorded assignment against the real code.
func TestReplay(t *testing.T) {
	name := os.Getenv("VERIF_HARNESS")
	if name == "" {
		t.Skip("no harness selected")
	}
	fn := Registry[name]
	if fn == nil {
		t.Fatalf("unknown harness %s", name)
	}
	vec := map[string]uint64{}
	b, err := os.ReadFile(os.Getenv("VERIF_VECTOR"))
	if err == nil {
		err = json.Unmarshal(b, &vec)
	}
	if err != nil {
		t.Fatal(err)
	}
	tier, _ := strconv.Atoi(os.Getenv("VERIF_TIERN"))
	if os.Getenv("VERIF_RACE") == "" {
		sync.VerifHook, sync.VerifUnlocked = v.SchedPark, v.Unlocked
	} else {
		sync.VerifHook, sync.VerifUnlocked = v.Delay, func() { v.Delay(nil) }
	}
	run := func() {
		v.Setup(vec, tier)
		defer func() {
			if r := recover(); r != nil {
				v.Finish("panic", "", fmt.Sprint(r)+"\n"+string(debug.Stack()))
			}
		}()
		fn()
		v.Finish("ok", "", "")
	}
	if os.Getenv("VERIF_NOBUBBLE") != "" {
		run()
		return
	}
	synctest.Test(t, func(t *testing.T) { run() })
}
