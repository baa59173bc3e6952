package app

import (
	"encoding/json"
	"io/ioutil"
	"os"
	"testing"

	"github.com/tendermint/tendermint/libs/log"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	dbm "github.com/tendermint/tm-db"

	rt "github.com/arterynetwork/artr/verifrt"
)

func init() {
	vNativeSetup = func() {
		db := dbm.NewMemDB()
		vApp = NewArteryApp(log.NewNopLogger(), db, nil, true, 0, NewEncodingConfig())
		vCtx = vApp.BaseApp.NewUncachedContext(false, tmproto.Header{Height: 1, Time: vT0})
	}
}

func TestVerifReplay(t *testing.T) {
	file := os.Getenv("VERIF_REPLAY")
	if file == "" {
		t.Skip()
	}
	b, err := ioutil.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	var rf struct {
		Tier  string `json:"tier"`
		Cases []struct {
			Harness string     `json:"harness"`
			Label   string     `json:"label"`
			Inputs  []rt.Input `json:"inputs"`
		} `json:"cases"`
	}
	if err := json.Unmarshal(b, &rf); err != nil {
		t.Fatal(err)
	}
	var out []string
	for _, c := range rf.Cases {
		f := verifHarnesses[c.Harness]
		if f == nil {
			out = append(out, "unknown harness")
			continue
		}
		VerifSetup()
		r := rt.Replay(c.Inputs, rf.Tier == "thorough", f)
		t.Logf("%s [%s]: %s", c.Harness, c.Label, r)
		out = append(out, r)
	}
	if p := os.Getenv("VERIF_REPLAY_OUT"); p != "" {
		j, _ := json.Marshal(out)
		if err := ioutil.WriteFile(p, j, 0644); err != nil {
			t.Fatal(err)
		}
	}
}
