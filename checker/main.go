package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"time"
)

type check struct {
	run         func(a *Analysis, r *Report)
	explanation string
}

var checks = map[string]check{
	"C01": {checkC01, "interprocedural effect analysis with must-facts about frozen flags: every write that an exported function may make to pre-existing memory of a value is shown to be guarded by that value's frozen flag"},
	"C02": {checkC02, "abstract interpretation of every function that stores in collections: what frozen collections contain at the end of each path"},
	"C10": {checkC10, "abstract interpretation of every function that stores in collections: what they contain at the end of each path"},
	"C03": {checkC03, "provenance analysis: storage (slices, nodes, reflected memory) of a value is followed from where it is read to results, Go destinations and other values"},
	"C04": {checkC04, "interprocedural effect analysis: the summary of every exported function that isn't a mutator contains no write to memory reachable from its receiver or arguments"},
	"C05": {checkC05, "abstract interpretation on a symbolic heap of every function that changes the structure of maps"},
	"C06": {checkC06, "abstract interpretation of hash functions, compared under the facts that equality establishes"},
	"C07": {checkC07, "abstract interpretation of equality for all pairs of kinds"},
	"C08": {checkC08, "abstract interpretation of comparison for all pairs of kinds, and consistency of the outcomes of both directions"},
	"C09": {checkC09, "abstract interpretation of every iterating method with a symbolic collection and a symbolic callback"},
	"C11": {checkC11, "abstract interpretation of every function that converts numbers: the range of each number on every path to the conversion"},
	"C12": {checkC12, "abstract interpretation of Instance, Assignable and constructors of types with limits, with zones"},
	"C13": {checkC13, "abstract interpretation of every assignability method for every pair of a type and a type that decides assignability itself"},
	"C14": {checkC14, "interpretation of every function with a recursion guard: the guard is passed on, asked on every cycle, and never left behind"},
	"C15": {checkC15, "abstract interpretation of every method that creates a value: the result was found to be an instance on every path"},
	"C17": {checkC17, "abstract interpretation of the identifier, the name, the printing and the parsing of each kind of type"},
	"C16": {checkC16, "taint analysis of the content of sensitive values, and of the generic forms of types that hold a value"},
	"C18": {checkC18, "abstract interpretation of lexers and parsers at the end of the text, and path analysis of reads, tokens and conversions"},
	"C20": {checkC20, "path analysis of the control flow graph from every call that can fail, through helper functions that the error is handed to"},
	"C19": {checkC19, "abstract interpretation of what writes and what reads serialized data, on graphs of unknown values"},
	"C21": {checkC21, "context sensitive lockset analysis of every function that can be called from outside of the package, following calls, closures and deferred calls"},
	"C22": {checkC22, "effect summaries for memory that is shared (receivers, arguments, package level variables) and a context sensitive lockset analysis of the variables that are replaced after initialization"},
	"C23": {checkC23, "analysis of the code that is executed for each element of a Go map: everything that it does commutes, and what it collects is put in order"},
}

func main() {
	debug.SetGCPercent(400)
	repo, dir := "/repo", "."
	if s := os.Getenv("VERIF_REPO"); s != "" {
		repo = s
	}
	if s := os.Getenv("VERIF_DIR"); s != "" {
		dir = s
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := os.Args[1:]
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	if f := os.Getenv("VERIF_CPUPROF"); f != "" {
		o, _ := os.Create(f)
		_ = pprof.StartCPUProfile(o) // cpuprof
		defer pprof.StopCPUProfile()
	}
	start := time.Now()
	p, err := loadProg(repo)
	if err != nil {
		fmt.Println(err)
		for _, id := range ids {
			// code that does not build has no properties
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, "-")
		}
		os.Exit(1)
	}
	a := newAnalysis(p)
	code := 0
	if len(ids) == 1 && ids[0] == "conv" {
		dbgConv(a)
		return
	}
	if len(ids) == 2 && ids[0] == "summary" {
		dbgSum(a, ids[1])
		return
	}
	for _, id := range ids {
		c, ok := checks[id]
		if !ok {
			fmt.Println("unknown property", id)
			os.Exit(1)
		}
		if runCheck(a, id, c, dir, tier, seed, start) != 0 {
			code = 1
		}
		start = time.Now()
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

func runCheck(a *Analysis, id string, c check, dir, tier string, seed int, start time.Time) (code int) {
	r := newReport(id)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if f, ok := e.(failure); ok {
					r.ob(false, "undecided", id, "-", f.msg)
					return
				}
				if os.Getenv("VERIF_DEBUG") != "" {
					panic(e)
				}
				r.ob(false, "undecided", id, "-", fmt.Sprintf("the analysis failed: %v\n%s", e, debug.Stack()))
			}
		}()
		c.run(a, r)
	}()
	return r.finish(dir, tier, seed, start, "other", c.explanation)
}
