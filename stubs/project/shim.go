// Package project replaces the generated shim of typescript-go's project
// package (which needs the patched submodule, absent from this sandbox) by an
// environment model: every query is answered by hooks that a harness installs.
package project

import (
	"github.com/microsoft/typescript-go/shim/tsoptions"
	"github.com/microsoft/typescript-go/shim/tspath"
	"github.com/microsoft/typescript-go/shim/vfs"
)

type ProjectLoadKind int

const (
	ProjectLoadKindFind ProjectLoadKind = iota
	ProjectLoadKindCreate
)

type LogTree struct{}
type SnapshotFSBuilder struct{}
type ConfigFileRegistry struct{}
type ExtendedConfigCache struct{}
type SessionOptions struct{ CurrentDirectory string }
type ConfigFileRegistryBuilder struct{ Env *Env }

// Env is the nondeterministic environment.
type Env struct {
	Compute  func(fileName string, skip bool) string
	Find     func(configFileName string, configFilePath, filePath tspath.Path) *tsoptions.ParsedCommandLine
	Ancestor func(fileName string, path tspath.Path, configFileName string) string
}

var DefaultEnv *Env

func TsGoLintNewSnapshotFSBuilder(fs vfs.FS, currentDirectory string) *SnapshotFSBuilder {
	return &SnapshotFSBuilder{}
}
func NewExtendedConfigCache() *ExtendedConfigCache { return &ExtendedConfigCache{} }
func NewConfigFileRegistryBuilder(hasRelativePatternCapability bool, fs *SnapshotFSBuilder, old *ConfigFileRegistry, c *ExtendedConfigCache, snapshotID uint64, o *SessionOptions, custom string, logger *LogTree) *ConfigFileRegistryBuilder {
	return &ConfigFileRegistryBuilder{Env: DefaultEnv}
}
func (b *ConfigFileRegistryBuilder) ComputeConfigFileName(fileName string, skip bool, logger *LogTree) string {
	if b.Env == nil {
		return ""
	}
	return b.Env.Compute(fileName, skip)
}
func (b *ConfigFileRegistryBuilder) FindOrAcquireConfigForFile(configFileName string, configFilePath tspath.Path, filePath tspath.Path, loadKind ProjectLoadKind, logger *LogTree) *tsoptions.ParsedCommandLine {
	if b.Env == nil {
		return nil
	}
	return b.Env.Find(configFileName, configFilePath, filePath)
}
func (b *ConfigFileRegistryBuilder) GetAncestorConfigFileName(fileName string, path tspath.Path, configFileName string, logger *LogTree) string {
	if b.Env == nil {
		return ""
	}
	return b.Env.Ancestor(fileName, path, configFileName)
}
