package main

// Outputs over in-memory inputs and real indexes.

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/output/parameter"
	"github.com/rodb-io/rodb/pkg/output/relationship"
	"github.com/rodb-io/rodb/pkg/parser"
)

type world struct {
	inputs   input.List
	inputCfg map[string]input.Config
	indexes  index.List
	indexCfg map[string]index.Config
	parsers  parser.List
	parseCfg map[string]parser.Config
}

func newWorld(ins ...*memInput) *world {
	w := &world{inputs: input.List{}, inputCfg: map[string]input.Config{}, indexes: index.List{}, indexCfg: map[string]index.Config{}}
	w.parseCfg = map[string]parser.Config{
		"string":  &parser.StringConfig{Name: "string"},
		"integer": &parser.IntegerConfig{Name: "integer"},
		"float":   &parser.FloatConfig{Name: "float", DecimalSeparator: "."},
		"boolean": &parser.BooleanConfig{Name: "boolean", TrueValues: []string{"true"}, FalseValues: []string{"false"}},
	}
	for _, p := range w.parseCfg {
		must(p.Validate(w.parseCfg, quietEntry()))
	}
	var err error
	w.parsers, err = parser.NewFromConfigs(w.parseCfg)
	must(err)
	for _, m := range ins {
		w.inputs[m.name] = m
		w.inputCfg[m.name] = &memConfig{m.name}
	}
	w.addIndex(&index.NoopConfig{Name: "default"})
	return w
}

func (w *world) addIndex(cfg index.Config) {
	if err := cfg.Validate(w.inputCfg, quietEntry()); err != nil {
		panic(violf("index-config", "%v", err))
	}
	list, err := index.NewFromConfigs(map[string]index.Config{cfg.GetName(): cfg}, w.inputs)
	if err != nil {
		panic(violf("index-build", "%v", err))
	}
	w.indexCfg[cfg.GetName()] = cfg
	w.indexes[cfg.GetName()] = list[cfg.GetName()]
}

// addKind adds an index of one kind over the properties.
func (w *world) addKind(kind, name, in string, props ...string) {
	switch kind {
	case "noop":
		w.addIndex(&index.NoopConfig{Name: name})
	case "map":
		w.addIndex(&index.MapConfig{Name: name, Input: in, Properties: props})
	case "sqlite":
		cfg := &index.SqliteConfig{Name: name, Input: in, Dsn: ":memory:"}
		for _, p := range props {
			cfg.Properties = append(cfg.Properties, &index.SqlitePropertyConfig{Name: p})
		}
		w.addIndex(cfg)
	case "fts5":
		w.addIndex(&index.Fts5Config{Name: name, Input: in, Dsn: ":memory:", Properties: props})
	default:
		panic("kind " + kind)
	}
}

func (w *world) addWildcard(name, in, path string, props ...string) {
	w.addIndex(&index.WildcardConfig{Name: name, Input: in, Path: path, Properties: props})
}

func (w *world) close() { _ = index.Close(w.indexes) }

func (w *world) output(cfg output.Config) (output.Output, error) {
	if err := cfg.Validate(w.inputCfg, w.indexCfg, w.parseCfg, quietEntry()); err != nil {
		return nil, fmt.Errorf("config: %w", err)
	}
	list, err := output.NewFromConfigs(map[string]output.Config{"o": cfg}, w.inputs, w.indexes, w.parsers)
	if err != nil {
		return nil, err
	}
	return list["o"], nil
}

func (w *world) mustOutput(cfg output.Config) output.Output {
	o, err := w.output(cfg)
	if err != nil {
		panic(violf("output-refused", "%v", err))
	}
	return o
}

func param(property, index, parser string) *parameter.ParameterConfig {
	return &parameter.ParameterConfig{Property: property, Index: index, Parser: parser}
}

type params = map[string]*parameter.ParameterConfig
type rels = map[string]*relationship.RelationshipConfig

// jsonEqual compares JSON text with an expected value, by meaning.
func jsonEqual(text string, want interface{}) bool {
	var got, exp interface{}
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	if err := dec.Decode(&got); err != nil {
		return false
	}
	if dec.More() {
		return false
	}
	b, err := json.Marshal(want)
	must(err)
	dec = json.NewDecoder(strings.NewReader(string(b)))
	dec.UseNumber()
	must(dec.Decode(&exp))
	return show(got) == show(exp)
}

// checkOk checks that a reply is a success carrying exactly this value.
func checkOk(key string, rep Reply, want interface{}, what string) error {
	if rep.Ret != nil || rep.Count != 1 || rep.Status != 200 {
		return violf(key+":not-ok", "%s: expected %s, got %s (returned %v, %d answers)", what, js(want), rep, rep.Ret, rep.Count)
	}
	if !jsonEqual(rep.Body, want) {
		return violf(key+":wrong", "%s: expected %s, got %s", what, js(want), rep.Body)
	}
	return nil
}

func checkStatus(key string, rep Reply, status int, what string) error {
	if rep.Status != status || rep.Count != 1 || rep.Ret != nil || rep.Body != "" {
		return violf(key+":status", "%s: expected a %d error, got %s body %q (returned %v, %d answers)", what, status, rep, rep.Body, rep.Ret, rep.Count)
	}
	return nil
}
