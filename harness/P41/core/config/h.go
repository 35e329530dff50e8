package config

import (
	"errors"

	"github.com/BurntSushi/toml"
	"github.com/sisu-network/dheart/verifrt"
)

// The file with the configuration.
var (
	VerifPath string // where it is
	VerifFile HeartConfig
	VerifBad  bool // it is missing or no configuration
	VerifRead int
)

//verif:stub github.com/BurntSushi/toml.DecodeFile
func verifDecodeFile(path string, v interface{}) (toml.MetaData, error) {
	verifrt.Assert(path == VerifPath, "another file is read than the configuration")
	if VerifBad {
		return toml.MetaData{}, errors.New("no configuration")
	}
	VerifRead++
	*v.(*HeartConfig) = VerifFile
	return toml.MetaData{}, nil
}
