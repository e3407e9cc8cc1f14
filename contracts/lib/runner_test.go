package PKG

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	rfl "reflect"
	"strings"
	"strconv"
	"testing"
	"time"
)

type verifJob struct {
	Names   []string             // contracts to replay
	Models  []map[string]float64 // parameter values suggested by the solver
	Seed    int64
	Seconds float64
	Out     string
}

type verifFinding struct {
	Contract, Failed, Inputs string
}

type verifCase struct {
	name   string
	lo, hi int
}

var verifSpecial = []float64{0, 1, -1, 0.5, -0.5, 2, -2, 3, 10, 1e-3, 100, 0.25}

func verifFloat(r *rand.Rand) float64 {
	switch r.Intn(6) {
	case 0, 1:
		return verifSpecial[r.Intn(len(verifSpecial))]
	case 2:
		return float64(r.Intn(9) - 4)
	case 3:
		return r.Float64()
	}
	return r.NormFloat64() * 2
}

func verifGen(r *rand.Rand, t rfl.Type, v rfl.Value, name string, m map[string]float64, depth int) {
	if g, ok := verifGens[t]; ok {
		v.Set(rfl.ValueOf(g(r, depth)))
		return
	}
	switch t.Kind() {
	case rfl.Float64, rfl.Float32:
		x := verifFloat(r)
		if y, ok := m[name]; ok {
			x = y
		}
		v.SetFloat(x)
	case rfl.Int, rfl.Int64, rfl.Int32, rfl.Int16, rfl.Int8:
		n := int64(r.Intn(12) - 2)
		if y, ok := m[name]; ok && math.Abs(y) < 64 {
			n = int64(y)
		}
		v.SetInt(n)
	case rfl.Uint, rfl.Uint64, rfl.Uint32, rfl.Uint16, rfl.Uint8:
		v.SetUint(uint64(r.Intn(256)))
	case rfl.Bool:
		v.SetBool(r.Intn(2) == 0)
	case rfl.String:
		v.SetString("s" + strconv.Itoa(r.Intn(3)))
	case rfl.Struct:
		for i := 0; i < t.NumField(); i++ {
			if v.Field(i).CanSet() {
				verifGen(r, t.Field(i).Type, v.Field(i), name+"."+t.Field(i).Name, m, depth)
			}
		}
	case rfl.Array:
		for i := 0; i < t.Len(); i++ {
			verifGen(r, t.Elem(), v.Index(i), name+"."+strconv.Itoa(i), m, depth)
		}
	case rfl.Slice:
		n := r.Intn(5)
		s := rfl.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			verifGen(r, t.Elem(), s.Index(i), name+"["+strconv.Itoa(i)+"]", nil, depth)
		}
		v.Set(s)
	case rfl.Ptr:
		p := rfl.New(t.Elem())
		verifGen(r, t.Elem(), p.Elem(), name, nil, depth)
		v.Set(p)
	case rfl.Func:
		if t.NumOut() == 1 {
			a, b := verifFloat(r), verifFloat(r)
			out := t.Out(0)
			v.Set(rfl.MakeFunc(t, func(args []rfl.Value) []rfl.Value {
				s := a
				for _, x := range args {
					s += b * verifSum(x)
				}
				o := rfl.New(out).Elem()
				verifGen(rand.New(rand.NewSource(int64(math.Float64bits(s)))), out, o, "", nil, depth)
				if out.Kind() == rfl.Float64 {
					o.SetFloat(s)
				}
				return []rfl.Value{o}
			}))
		}
	default:
		panic("no generator for " + t.String())
	}
}

func verifTryGen(r *rand.Rand, t rfl.Type, v rfl.Value, name string, m map[string]float64) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			ok = false
		}
	}()
	verifGen(r, t, v, name, m, 2)
	return true
}

func verifSum(v rfl.Value) float64 {
	switch v.Kind() {
	case rfl.Float64, rfl.Float32:
		return v.Float()
	case rfl.Array:
		s := 0.0
		for i := 0; i < v.Len(); i++ {
			s += v.Index(i).Float() * float64(i+1)
		}
		return s
	}
	return 0
}

func verifShow(v rfl.Value) string {
	switch v.Kind() {
	case rfl.Func, rfl.Interface, rfl.Chan:
		if v.Kind() == rfl.Interface && !v.IsNil() {
			return fmt.Sprintf("%T", v.Interface())
		}
		return v.Type().String()
	case rfl.Ptr:
		if !v.IsNil() {
			return "&" + verifShow(v.Elem())
		}
		return "nil"
	}
	s := fmt.Sprintf("%+v", v.Interface())
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func verifTrial(f rfl.Value, args []rfl.Value) (fails []string, skipped bool) {
	verifFails = nil
	defer func() {
		fails = verifFails
		if x := recover(); x != nil {
			if _, ok := x.(verifSkip); ok {
				// a failed precondition after a failed postcondition still counts
				skipped = len(fails) == 0
				return
			}
			fails = append(fails, "panic: "+fmt.Sprint(x))
		}
	}()
	f.Call(args)
	return verifFails, false
}

func TestVerifReplay(t *testing.T) {
	var job verifJob
	b, err := os.ReadFile(os.Getenv("VERIF_JOB"))
	if err != nil {
		t.Skip("no job")
	}
	if err := json.Unmarshal(b, &job); err != nil {
		t.Fatal(err)
	}
	var found []verifFinding
	stats := map[string][2]int{}
	for _, n := range job.Names {
		h, ok := verifHarness[n]
		if !ok {
			continue
		}
		f := rfl.ValueOf(h)
		r := rand.New(rand.NewSource(job.Seed))
		verifRnd = rand.New(rand.NewSource(job.Seed))
		deadline := time.Now().Add(time.Duration(job.Seconds * float64(time.Second)))
		ran, skip := 0, 0
		hit := false
		for k := 0; time.Now().Before(deadline) && k < 400000 && !hit; k++ {
			var m map[string]float64
			if k < len(job.Models) {
				m = job.Models[k]
			} else if len(job.Models) > 0 && k%7 == 0 {
				m = job.Models[k%len(job.Models)]
			}
			args := make([]rfl.Value, f.Type().NumIn())
			ps := strings.Split(verifParams[n], ",")
			able := true
			for i := range args {
				at := f.Type().In(i)
				args[i] = rfl.New(at).Elem()
				if !verifTryGen(r, at, args[i], ps[i], m) {
					able = false
					break
				}
				if c := verifCases[n]; c.name == ps[i] {
					args[i].SetInt(int64(c.lo + r.Intn(c.hi-c.lo+1)))
				}
			}
			if !able {
				break // the contract cannot be run: no values of this type can be made
			}
			var show []string
			for i, a := range args {
				show = append(show, ps[i]+"="+verifShow(a))
			}
			fails, sk := verifTrial(f, args)
			if sk {
				skip++
				continue
			}
			ran++
			if len(fails) > 0 {
				found = append(found, verifFinding{n, strings.Join(fails, "; "), strings.Join(show, ", ")})
				hit = true
			}
		}
		stats[n] = [2]int{ran, skip}
	}
	o, _ := json.MarshalIndent(map[string]interface{}{"found": found, "stats": stats}, "", " ")
	os.WriteFile(job.Out, o, 0644)
	for _, x := range found {
		t.Errorf("contract %s fails: %s\n  inputs: %s", x.Contract, x.Failed, x.Inputs)
	}
}

var _ = time.Now
