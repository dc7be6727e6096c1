//gover:file P07
package main

import (
	"github.com/go-json-experiment/json"
	"github.com/typescript-eslint/tsgolint/internal/vs"
)

type specRuleV2 struct {
	Name    string `json:"name"`
	Options any    `json:"options,omitempty"`
}
type specConfigV2 struct {
	FilePaths []string     `json:"file_paths"`
	Rules     []specRuleV2 `json:"rules"`
}
type specPayloadV2 struct {
	Version         int               `json:"version"`
	Configs         []specConfigV2    `json:"configs"`
	SourceOverrides map[string]string `json:"source_overrides,omitempty"`
	ReportSyntactic bool              `json:"report_syntactic,omitempty"`
	ReportSemantic  bool              `json:"report_semantic,omitempty"`
}
type specFileV1 struct {
	FilePath string   `json:"file_path"`
	Rules    []string `json:"rules"`
}

// ghost: the text fails to decode into a Go value of the given wire shape
var ghostDecodes int

//gover:stub github.com/go-json-experiment/json.Unmarshal for=verify_DeserializePayload
func stub_Unmarshal(in []byte, out any, opts ...json.Options) error {
	ghostDecodes++
	vs.Decode(out, string(in))
	if vs.UF[bool]("json.malformed", string(in), ghostDecodes) {
		return vs.UF[error]("json.error", string(in), ghostDecodes)
	}
	return nil
}

//gover:inv * for=verify_DeserializePayload
func inv_files(p *headlessPayload, v1 headlessPayloadV1, i int) bool {
	cs, files := p.Configs, v1.Files
	return vs.Forall(func(j int) bool {
		return vs.Imp(0 <= j && j <= i, len(cs[j].FilePaths) == 1 && cs[j].FilePaths[0] == files[j].FilePath)
	})
}

//gover:inv * for=verify_DeserializePayload
func inv_rules(p *headlessPayload, v1 headlessPayloadV1, i int) bool {
	cs, files := p.Configs, v1.Files
	return vs.Forall2(func(j, k int) bool {
		return vs.Imp(0 <= j && j <= i && 0 <= k && k < len(files[j].Rules), cs[j].Rules[k].Name == files[j].Rules[k] && cs[j].Rules[k].Options == nil)
	})
}

//gover:prove P07 nopanic
func verify_DeserializePayload(data []byte) {
	text := string(data)
	vs.Assume(ghostDecodes == 0)
	vs.Assume(vs.Forall2(func(t string, i int) bool { return vs.UF[error]("json.error", t, i) != nil }))
	version := vs.Member[int](text, "version")
	files := vs.Member[[]headlessConfigForFileV1](text, "files")
	before := vs.Snap(files)
	mk := vs.Mark()
	p, err := deserializePayload(data)
	bad := vs.Exists(func(i int) bool { return 1 <= i && i <= ghostDecodes && vs.UF[bool]("json.malformed", text, i) })
	vs.Assert("a payload or an error, never both, never neither", (p == nil) == (err != nil))
	vs.Assert("undecodable text is an error", vs.Imp(bad, err != nil))
	vs.Assert("every version other than 0 and 2 is an error", vs.Imp(version != 0 && version != 2, err != nil))
	vs.Assert("a decodable version 2 payload is accepted", vs.Imp(!bad && version == 2, err == nil))
	vs.Assert("a V1 payload without files is an error", vs.Imp(version == 0 && len(files) == 0, err != nil))
	vs.Assert("a decodable V1 payload with files is accepted", vs.Imp(!bad && version == 0 && len(files) > 0, err == nil))
	vs.Assert("the V1 listing itself is left alone", vs.OnlyModified(mk, &ghostDecodes))
	if err == nil && version == 2 {
		vs.Assert("version 2: version", p.Version == 2)
		vs.Assert("version 2: configs as given", vs.Eq(p.Configs, vs.Member[[]headlessConfig](text, "configs")))
		vs.Assert("version 2: overrides as given", vs.Eq(p.SourceOverrides, vs.Member[map[string]string](text, "source_overrides")))
		vs.Assert("version 2: report_syntactic as given", p.ReportSyntactic == vs.Member[bool](text, "report_syntactic"))
		vs.Assert("version 2: report_semantic as given", p.ReportSemantic == vs.Member[bool](text, "report_semantic"))
	}
	if err == nil && version == 0 {
		vs.Assert("version 1: becomes version 2", p.Version == 2)
		vs.Assert("version 1: no overrides", len(p.SourceOverrides) == 0)
		vs.Assert("version 1: no type errors requested", !p.ReportSyntactic && !p.ReportSemantic)
		vs.Assert("version 1: one config per file", len(p.Configs) == before.Len())
		vs.Assert("version 1: each config names its file", vs.Forall(func(i int) bool {
			return vs.Imp(0 <= i && i < before.Len(), len(p.Configs[i].FilePaths) == 1 && p.Configs[i].FilePaths[0] == before.At(i).FilePath)
		}))
		vs.Assert("version 1: each config has as many rules", vs.Forall(func(i int) bool {
			return vs.Imp(0 <= i && i < before.Len(), len(p.Configs[i].Rules) == len(before.At(i).Rules))
		}))
		vs.Assert("version 1: rules keep name and order, without options", vs.Forall2(func(i, j int) bool {
			return vs.Imp(0 <= i && i < before.Len() && 0 <= j && j < len(before.At(i).Rules), p.Configs[i].Rules[j].Name == before.At(i).Rules[j] && p.Configs[i].Rules[j].Options == nil)
		}))
	}
}

//gover:prove P07
func verify_PayloadWireNames() {
	vs.Assert("V2 config member names", vs.SameJSON[headlessConfig, specConfigV2]())
	vs.Assert("V2 payload member names", vs.SameJSON[headlessPayload, specPayloadV2]())
	vs.Assert("V1 file member names", vs.SameJSON[headlessConfigForFileV1, specFileV1]())
}
