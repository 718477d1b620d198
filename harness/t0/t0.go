package t0

import (
	"strings"

	"github.com/innerr/ticat/pkg/core/model"
	"github.com/innerr/ticat/pkg/zzverif/vnd"
)

func HEnv() {
	env := model.NewEnv()
	s := env.NewLayer(model.EnvLayerSession)
	k1 := vnd.StrOf("ab.", 1, 3)
	k2 := vnd.StrOf("ab.", 1, 3)
	env.Set(k1, "1")
	s.Set(k2, "2")
	if k1 == k2 {
		vnd.Reach("same")
		vnd.Assert(env.GetRaw(k1) == "1", "lower unchanged")
		vnd.Assert(s.GetRaw(k1) == "2", "upper")
	} else {
		vnd.Reach("diff")
		vnd.Assert(s.GetRaw(k1) == "1", "inherit")
	}
}

func HSplit() {
	s := vnd.StrOf("abc,", 0, 6)
	parts := strings.Split(s, ",")
	vnd.Assert(strings.Join(parts, ",") == s, "roundtrip")
	vnd.Assert(len(parts) < 6, "short")
}

func HIO() {
	env := model.NewEnv()
	k := vnd.StrOf("ab.", 1, 2)
	v := vnd.StrOf("xy= \r", 0, 3)
	env.NewLayer(model.EnvLayerSession).Set(k, v)
	e2 := env.NewLayer(model.EnvLayerSession)
	e2.Set(k, v)
	p := vnd.TempDir() + "/e"
	model.SaveEnvToFile(e2, p, "=", false)
	e3 := model.NewEnv()
	model.LoadEnvFromFile(e3, p, "=", "--")
	vnd.Note(e3.GetRaw(k))
	vnd.Assert(e3.GetRaw(k) == v, "io")
}
